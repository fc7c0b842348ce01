// Written by tools/matgen.py (seed 7).
#![allow(unused, non_snake_case, non_camel_case_types, non_upper_case_globals, clippy::all)]
use std::collections::*;
use std::time::{Duration, SystemTime};
use vcore::entry;
use vcore::reg::Entry;
use vcore::val::*;
use nanoserde::{SerBin, DeBin, SerJson, DeJson, SerRon, DeRon};
pub mod reexp { pub use nanoserde::*; }
pub mod inner { pub mod deeper { pub type Word = u16; } }
const LEN: usize = 2;
const LENI: i8 = 3;
pub trait Assoc { type Ty; }
impl Assoc for u8 { type Ty = u32; }
impl<X> Assoc for Vec<X> { type Ty = i16; }
pub type Alias<X> = Vec<X>;
pub type Text = String;
pub type OptAlias = Option<u8>;
/// anything, to be skipped
pub struct Odd<X>(std::marker::PhantomData<fn() -> Option<X>>);
impl<X> Default for Odd<X> { fn default() -> Self { Odd(std::marker::PhantomData) } }
impl<X> Clone for Odd<X> { fn clone(&self) -> Self { Odd(std::marker::PhantomData) } }
impl<X: 'static> Subject for Odd<X> { const TY: TyRef = &Ty::Unit; fn from_val(_: &Val) -> Self { Odd(std::marker::PhantomData) } fn to_val(&self) -> Val { Val::Unit } }
pub trait Known { type Ty; }
impl<X> Known for X { type Ty = u8; }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon, Default)] pub struct Kn<const K: i32>(pub u16);
#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon, Default)] pub struct Kc<const K: char> { pub k: u16 }
#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon, Default)] pub struct Kb<const K: bool>(pub u8, pub bool);
impl<const K: i32> Subject for Kn<K>  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "Kn", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); Kn(Subject::from_val(&x[0])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val()]) }
}
impl<const K: char> Subject for Kc<K>  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "Kc", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "k", json: "k", ron: "k", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); Kc { k: Subject::from_val(&x[0]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.k.to_val()]) }
}
impl<const K: bool> Subject for Kb<K>  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "Kb", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "", json: "", ron: "", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); Kb(Subject::from_val(&x[0]), Subject::from_val(&x[1])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val()]) }
}
pub trait Marker {}
impl<X> Marker for X {}
pub trait MySerJson {}
impl<X> MySerJson for X {}
pub trait SerJsonX {}
impl<X> SerJsonX for X {}
pub trait WithDeBin {}
impl<X> WithDeBin for X {}
pub trait DeJsonOwned {}
impl<X> DeJsonOwned for X {}
pub trait SerBinary {}
impl<X> SerBinary for X {}
pub trait DeRonLike {}
impl<X> DeRonLike for X {}

#[derive(SerBin, DeBin, SerJson, DeJson)]
pub struct MPx { inner: u16, more: Option<bool> }
impl Subject for MPx  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MPx", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "inner", json: "inner", ron: "inner", ty: <u16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u16 as Default>::default().to_val()) },
        FieldDef { name: "more", json: "more", ron: "more", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MPx { inner: Subject::from_val(&x[0]), more: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.inner.to_val(), self.more.to_val()]) }
}
/// what is written is an MPx; for the binary format an Option of it as a whole has a proxy too
#[derive(Clone, Debug, PartialEq)]
pub struct MW { v: u16, w: Option<bool> }
impl Default for MW { fn default() -> Self { MW { v: 5, w: None } } }
fn mw(v: u16) -> MW { MW { v, w: Some(true) } }
impl Subject for MW {
    const TY: TyRef = <MPx as Subject>::TY;
    fn from_val(v: &Val) -> Self { let p = MPx::from_val(v); MW { v: p.inner, w: p.more } }
    fn to_val(&self) -> Val { MPx::from(self).to_val() }
}
impl From<&MW> for MPx { fn from(x: &MW) -> Self { MPx { inner: x.v, more: x.w } } }
impl From<&MPx> for MW { fn from(x: &MPx) -> Self { MW { v: x.inner, w: x.more } } }
#[derive(SerBin, DeBin)]
pub struct MPo { o: Option<MPx> }
impl From<&Option<MW>> for MPo { fn from(x: &Option<MW>) -> Self { MPo { o: x.as_ref().map(|x| x.into()) } } }
impl From<&MPo> for Option<MW> { fn from(x: &MPo) -> Self { x.o.as_ref().map(|x| x.into()) } }
#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct MSmall { x: u8, y: Option<bool> }
impl Default for MSmall { fn default() -> Self { MSmall { x: 77, y: Some(false) } } }
impl Subject for MSmall  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MSmall", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "x", json: "x", ron: "x", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "y", json: "y", ron: "y", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MSmall { x: Subject::from_val(&x[0]), y: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.x.to_val(), self.y.to_val()]) }
}
#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum MKind { A, B(u8), C { a: Option<u8> } }
impl Default for MKind { fn default() -> Self { MKind::B(200) } }
impl Subject for MKind {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "MKind", variants: &[
        VariantDef { name: "A", json: "A", kind: Kind::Unit, fields: &[] },
        VariantDef { name: "B", json: "B", kind: Kind::Tuple, fields: &[FieldDef { name: "", json: "", ron: "", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }] },
        VariantDef { name: "C", json: "C", kind: Kind::Named, fields: &[FieldDef { name: "a", json: "a", ron: "a", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] },
    ] });
    fn from_val(v: &Val) -> Self { match v {
        Val::Enum(0, _) => MKind::A, Val::Enum(1, x) => MKind::B(u8::from_val(&x[0])), Val::Enum(_, x) => MKind::C { a: Subject::from_val(&x[0]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self {
        MKind::A => Val::Enum(0, vec![]), MKind::B(x) => Val::Enum(1, vec![x.to_val()]), MKind::C { a } => Val::Enum(2, vec![a.to_val()]) } }
}
fn mdflt() -> BTreeMap<String, u8> { [(String::from("k"), 1)].into_iter().collect() }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct MSu8 {
    #[nserde(default = 5)] pub f0: u8,
    #[nserde(default_with = "mw_MSu8_1")] #[nserde(skip)] pub f1: u8,
    #[nserde(default = 5, skip, rename = "type2")] pub f2: u8,
    #[nserde(default = 5, rename = "N3")] pub f3: u8,
    #[nserde(skip, default = 5)] pub f4: u8,
    #[nserde(default_with = "mw_MSu8_5")] pub f5: u8,
    #[nserde(default, rename = "Ren6", skip)] pub f6: u8,
    #[nserde(rename = "ключ_7")] #[nserde(skip)] pub f7: u8,
    #[nserde(default_with = "mw_MSu8_8")] #[nserde(rename = "type8")] pub f8: u8,
    #[nserde(rename = "N9")] pub f9: u8,
    pub f10: u8,
    #[nserde(skip)] #[nserde(default)] pub f11: u8,
    #[nserde(default, rename = "Ren12")] pub f12: u8,
    #[nserde(default)] pub f13: u8,
    #[nserde(skip)] pub f14: u8,
}
impl Subject for MSu8  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MSu8", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: u8 = 5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MSu8_1().to_val()), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "type2", ron: "type2", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: u8 = 5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: u8 = 5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: u8 = 5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSu8_5().to_val()), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "ключ_7", ron: "ключ_7", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "type8", ron: "type8", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSu8_8().to_val()), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "N9", ron: "N9", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "Ren12", ron: "Ren12", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MSu8 { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val()]) }
}
fn mw_MSu8_1() -> u8 { <u8 as Subject>::from_val(&vcore::gen::sample::<u8>(1001)) }
fn mw_MSu8_5() -> u8 { <u8 as Subject>::from_val(&vcore::gen::sample::<u8>(1005)) }
fn mw_MSu8_8() -> u8 { <u8 as Subject>::from_val(&vcore::gen::sample::<u8>(1008)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default)]
pub struct MDu8 {
    #[nserde(rename = "Ren0", skip, default = 5)] pub f0: u8,
    #[nserde(default_with = "mw_MDu8_1", skip)] pub f1: u8,
    #[nserde(default = 5)] #[nserde(skip)] pub f2: u8,
    #[nserde(default = 5, rename = "N3")] pub f3: u8,
    #[nserde(default)] #[nserde(rename = "some_4")] pub f4: u8,
    #[nserde(rename = "_5", skip, default)] pub f5: u8,
    pub f6: u8,
    #[nserde(skip)] pub f7: u8,
    #[nserde(default = 5)] pub f8: u8,
    #[nserde(rename = "N9")] pub f9: u8,
    #[nserde(default)] pub f10: u8,
    #[nserde(default)] #[nserde(skip)] pub f11: u8,
    #[nserde(default_with = "mw_MDu8_12")] #[nserde(rename = "Ren12")] pub f12: u8,
    #[nserde(default_with = "mw_MDu8_13")] pub f13: u8,
    #[nserde(rename = "type14")] #[nserde(skip)] pub f14: u8,
}
impl Subject for MDu8  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MDu8", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "Ren0", ron: "Ren0", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: u8 = 5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MDu8_1().to_val()), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: u8 = 5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: u8 = 5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "some_4", ron: "some_4", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "_5", ron: "_5", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: u8 = 5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "N9", ron: "N9", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "Ren12", ron: "Ren12", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDu8_12().to_val()), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDu8_13().to_val()), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MDu8 { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val()]) }
}
fn mw_MDu8_1() -> u8 { <u8 as Subject>::from_val(&vcore::gen::sample::<u8>(1032)) }
fn mw_MDu8_12() -> u8 { <u8 as Subject>::from_val(&vcore::gen::sample::<u8>(1043)) }
fn mw_MDu8_13() -> u8 { <u8 as Subject>::from_val(&vcore::gen::sample::<u8>(1044)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum MEu8 {
    V0 { f0: u8, #[nserde(default)] f2: Option<Vec<String>>, f1: Option<Vec<String>> },
    V1 { #[nserde(rename = "N3")] f3: u8, #[nserde(default_with = "mw_MEu8_5")] #[nserde(skip)] f5: f32, f4: f32 },
    V2 { #[nserde(rename = "type8")] f8: MKind, f7: MKind, #[nserde(default)] f6: u8 },
    V3 { #[nserde(default = 5)] f9: u8, f10: f32, f11: f32 },
    V4 { #[nserde(default_with = "mw_MEu8_12")] f12: u8, f13: MKind, #[nserde(default_with = "mw_MEu8_14")] f14: MKind },
    V5 { #[nserde(skip)] f15: u8 },
    V6 { f19: BTreeMap<String, u8>, #[nserde(default_with = "mw_MEu8_20")] f20: BTreeMap<String, u8> },
    V7 { #[nserde(default = 5)] #[nserde(rename = "N21")] f21: u8, #[nserde(rename = "_23", default_with = "mw_MEu8_23")] f23: f32, f22: f32 },
    V8 { f25: Vec<u16>, #[nserde(default)] f26: Vec<u16>, #[nserde(rename = "Ren24", default_with = "mw_MEu8_24")] f24: u8 },
    V9 { f28: Option<bool>, #[nserde(skip)] #[nserde(rename = "_29")] f29: Option<bool>, #[nserde(skip)] #[nserde(rename = "N27")] f27: u8 },
    V10 { #[nserde(default, skip)] f30: u8, f31: Vec<u16> },
    V11 { f34: bool, f35: bool, #[nserde(default = 5, skip)] f33: u8 },
    V12 { f37: MKind, #[nserde(skip)] #[nserde(default_with = "mw_MEu8_36")] f36: u8, #[nserde(skip)] #[nserde(rename = "type38")] f38: MKind },
    V13 { #[nserde(default)] #[nserde(rename = "N39")] #[nserde(skip)] f39: u8, f40: Vec<u16> },
    V14 { #[nserde(rename = "Ren42")] #[nserde(default = 5)] #[nserde(skip)] f42: u8, #[nserde(rename = "type44")] f44: Vec<u16>, f43: Vec<u16> },
}
impl Subject for MEu8 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "MEu8", variants: &[VariantDef { name: "V0", json: "V0", kind: Kind::Named, fields: &[FieldDef { name: "f0", json: "f0", ron: "f0", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }] }, VariantDef { name: "V1", json: "V1", kind: Kind::Named, fields: &[FieldDef { name: "f3", json: "N3", ron: "N3", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f5", json: "f5", ron: "f5", ty: <f32 as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEu8_5().to_val()), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }, FieldDef { name: "f4", json: "f4", ron: "f4", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }] }, VariantDef { name: "V2", json: "V2", kind: Kind::Named, fields: &[FieldDef { name: "f8", json: "type8", ron: "type8", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }, FieldDef { name: "f7", json: "f7", ron: "f7", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }, FieldDef { name: "f6", json: "f6", ron: "f6", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }] }, VariantDef { name: "V3", json: "V3", kind: Kind::Named, fields: &[FieldDef { name: "f9", json: "f9", ron: "f9", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: u8 = 5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f10", json: "f10", ron: "f10", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }, FieldDef { name: "f11", json: "f11", ron: "f11", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }] }, VariantDef { name: "V4", json: "V4", kind: Kind::Named, fields: &[FieldDef { name: "f12", json: "f12", ron: "f12", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEu8_12().to_val()), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f13", json: "f13", ron: "f13", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }, FieldDef { name: "f14", json: "f14", ron: "f14", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEu8_14().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }] }, VariantDef { name: "V5", json: "V5", kind: Kind::Named, fields: &[FieldDef { name: "f15", json: "f15", ron: "f15", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }] }, VariantDef { name: "V6", json: "V6", kind: Kind::Named, fields: &[FieldDef { name: "f19", json: "f19", ron: "f19", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }, FieldDef { name: "f20", json: "f20", ron: "f20", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEu8_20().to_val()), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }] }, VariantDef { name: "V7", json: "V7", kind: Kind::Named, fields: &[FieldDef { name: "f21", json: "N21", ron: "N21", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: u8 = 5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f23", json: "_23", ron: "_23", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEu8_23().to_val()), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }, FieldDef { name: "f22", json: "f22", ron: "f22", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }] }, VariantDef { name: "V8", json: "V8", kind: Kind::Named, fields: &[FieldDef { name: "f25", json: "f25", ron: "f25", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }, FieldDef { name: "f26", json: "f26", ron: "f26", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }, FieldDef { name: "f24", json: "Ren24", ron: "Ren24", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEu8_24().to_val()), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }] }, VariantDef { name: "V9", json: "V9", kind: Kind::Named, fields: &[FieldDef { name: "f28", json: "f28", ron: "f28", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }, FieldDef { name: "f29", json: "_29", ron: "_29", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }, FieldDef { name: "f27", json: "N27", ron: "N27", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }] }, VariantDef { name: "V10", json: "V10", kind: Kind::Named, fields: &[FieldDef { name: "f30", json: "f30", ron: "f30", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f31", json: "f31", ron: "f31", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }] }, VariantDef { name: "V11", json: "V11", kind: Kind::Named, fields: &[FieldDef { name: "f34", json: "f34", ron: "f34", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f35", json: "f35", ron: "f35", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f33", json: "f33", ron: "f33", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: u8 = 5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }] }, VariantDef { name: "V12", json: "V12", kind: Kind::Named, fields: &[FieldDef { name: "f37", json: "f37", ron: "f37", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }, FieldDef { name: "f36", json: "f36", ron: "f36", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEu8_36().to_val()), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f38", json: "type38", ron: "type38", ty: <MKind as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }] }, VariantDef { name: "V13", json: "V13", kind: Kind::Named, fields: &[FieldDef { name: "f39", json: "N39", ron: "N39", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f40", json: "f40", ron: "f40", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }] }, VariantDef { name: "V14", json: "V14", kind: Kind::Named, fields: &[FieldDef { name: "f42", json: "Ren42", ron: "Ren42", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: u8 = 5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f44", json: "type44", ron: "type44", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }, FieldDef { name: "f43", json: "f43", ron: "f43", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::V0 { f0: Subject::from_val(&x_[0]), f2: Subject::from_val(&x_[1]), f1: Subject::from_val(&x_[2]) }, 1 => Self::V1 { f3: Subject::from_val(&x_[0]), f5: Subject::from_val(&x_[1]), f4: Subject::from_val(&x_[2]) }, 2 => Self::V2 { f8: Subject::from_val(&x_[0]), f7: Subject::from_val(&x_[1]), f6: Subject::from_val(&x_[2]) }, 3 => Self::V3 { f9: Subject::from_val(&x_[0]), f10: Subject::from_val(&x_[1]), f11: Subject::from_val(&x_[2]) }, 4 => Self::V4 { f12: Subject::from_val(&x_[0]), f13: Subject::from_val(&x_[1]), f14: Subject::from_val(&x_[2]) }, 5 => Self::V5 { f15: Subject::from_val(&x_[0]) }, 6 => Self::V6 { f19: Subject::from_val(&x_[0]), f20: Subject::from_val(&x_[1]) }, 7 => Self::V7 { f21: Subject::from_val(&x_[0]), f23: Subject::from_val(&x_[1]), f22: Subject::from_val(&x_[2]) }, 8 => Self::V8 { f25: Subject::from_val(&x_[0]), f26: Subject::from_val(&x_[1]), f24: Subject::from_val(&x_[2]) }, 9 => Self::V9 { f28: Subject::from_val(&x_[0]), f29: Subject::from_val(&x_[1]), f27: Subject::from_val(&x_[2]) }, 10 => Self::V10 { f30: Subject::from_val(&x_[0]), f31: Subject::from_val(&x_[1]) }, 11 => Self::V11 { f34: Subject::from_val(&x_[0]), f35: Subject::from_val(&x_[1]), f33: Subject::from_val(&x_[2]) }, 12 => Self::V12 { f37: Subject::from_val(&x_[0]), f36: Subject::from_val(&x_[1]), f38: Subject::from_val(&x_[2]) }, 13 => Self::V13 { f39: Subject::from_val(&x_[0]), f40: Subject::from_val(&x_[1]) }, 14 => Self::V14 { f42: Subject::from_val(&x_[0]), f44: Subject::from_val(&x_[1]), f43: Subject::from_val(&x_[2]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::V0 { f0: b0, f2: b1, f1: b2 } => Val::Enum(0, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V1 { f3: b0, f5: b1, f4: b2 } => Val::Enum(1, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V2 { f8: b0, f7: b1, f6: b2 } => Val::Enum(2, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V3 { f9: b0, f10: b1, f11: b2 } => Val::Enum(3, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V4 { f12: b0, f13: b1, f14: b2 } => Val::Enum(4, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V5 { f15: b0 } => Val::Enum(5, vec![b0.to_val()]), Self::V6 { f19: b0, f20: b1 } => Val::Enum(6, vec![b0.to_val(), b1.to_val()]), Self::V7 { f21: b0, f23: b1, f22: b2 } => Val::Enum(7, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V8 { f25: b0, f26: b1, f24: b2 } => Val::Enum(8, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V9 { f28: b0, f29: b1, f27: b2 } => Val::Enum(9, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V10 { f30: b0, f31: b1 } => Val::Enum(10, vec![b0.to_val(), b1.to_val()]), Self::V11 { f34: b0, f35: b1, f33: b2 } => Val::Enum(11, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V12 { f37: b0, f36: b1, f38: b2 } => Val::Enum(12, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V13 { f39: b0, f40: b1 } => Val::Enum(13, vec![b0.to_val(), b1.to_val()]), Self::V14 { f42: b0, f44: b1, f43: b2 } => Val::Enum(14, vec![b0.to_val(), b1.to_val(), b2.to_val()]), } }
}
fn mw_MEu8_5() -> f32 { <f32 as Subject>::from_val(&vcore::gen::sample::<f32>(1067)) }
fn mw_MEu8_12() -> u8 { <u8 as Subject>::from_val(&vcore::gen::sample::<u8>(1074)) }
fn mw_MEu8_14() -> MKind { <MKind as Subject>::from_val(&vcore::gen::sample::<MKind>(1076)) }
fn mw_MEu8_20() -> BTreeMap<String, u8> { <BTreeMap<String, u8> as Subject>::from_val(&vcore::gen::sample::<BTreeMap<String, u8>>(1082)) }
fn mw_MEu8_23() -> f32 { <f32 as Subject>::from_val(&vcore::gen::sample::<f32>(1085)) }
fn mw_MEu8_24() -> u8 { <u8 as Subject>::from_val(&vcore::gen::sample::<u8>(1086)) }
fn mw_MEu8_36() -> u8 { <u8 as Subject>::from_val(&vcore::gen::sample::<u8>(1098)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct MSi64 {
    #[nserde(rename = "Ren0", default)] pub f0: i64,
    #[nserde(default = "-5")] pub f1: i64,
    #[nserde(skip, default)] pub f2: i64,
    #[nserde(rename = "N3", default_with = "mw_MSi64_3")] pub f3: i64,
    #[nserde(skip)] #[nserde(default = "-5")] pub f4: i64,
    pub f5: i64,
    #[nserde(skip, rename = "Ren6")] pub f6: i64,
    #[nserde(default_with = "mw_MSi64_7", skip)] pub f7: i64,
    #[nserde(default = "-5", rename = "type8")] pub f8: i64,
    #[nserde(skip)] #[nserde(rename = "N9")] #[nserde(default = "-5")] pub f9: i64,
    #[nserde(skip)] pub f10: i64,
    #[nserde(rename = "_11", skip, default)] pub f11: i64,
    #[nserde(default)] pub f12: i64,
    #[nserde(rename = "ключ_13")] pub f13: i64,
    #[nserde(default_with = "mw_MSi64_14")] pub f14: i64,
}
impl Subject for MSi64  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MSi64", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "Ren0", ron: "Ren0", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: i64 = -5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSi64_3().to_val()), is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: i64 = -5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MSi64_7().to_val()), is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "type8", ron: "type8", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: i64 = -5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "N9", ron: "N9", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: i64 = -5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "_11", ron: "_11", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "ключ_13", ron: "ключ_13", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSi64_14().to_val()), is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MSi64 { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val()]) }
}
fn mw_MSi64_3() -> i64 { <i64 as Subject>::from_val(&vcore::gen::sample::<i64>(1096)) }
fn mw_MSi64_7() -> i64 { <i64 as Subject>::from_val(&vcore::gen::sample::<i64>(1100)) }
fn mw_MSi64_14() -> i64 { <i64 as Subject>::from_val(&vcore::gen::sample::<i64>(1107)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default)]
pub struct MDi64 {
    #[nserde(rename = "Ren0")] pub f0: i64,
    #[nserde(skip)] #[nserde(rename = "ключ_1")] pub f1: i64,
    #[nserde(skip)] #[nserde(default = "-5")] #[nserde(rename = "type2")] pub f2: i64,
    #[nserde(skip)] #[nserde(default)] pub f3: i64,
    #[nserde(default)] pub f4: i64,
    #[nserde(rename = "_5", default_with = "mw_MDi64_5")] pub f5: i64,
    #[nserde(default, rename = "Ren6")] pub f6: i64,
    #[nserde(skip, default = "-5")] pub f7: i64,
    #[nserde(skip)] pub f8: i64,
    #[nserde(default = "-5")] pub f9: i64,
    #[nserde(default)] #[nserde(rename = "some_10")] #[nserde(skip)] pub f10: i64,
    #[nserde(default = "-5")] #[nserde(rename = "_11")] pub f11: i64,
    #[nserde(default_with = "mw_MDi64_12")] pub f12: i64,
    #[nserde(default_with = "mw_MDi64_13")] #[nserde(skip)] pub f13: i64,
    pub f14: i64,
}
impl Subject for MDi64  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MDi64", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "Ren0", ron: "Ren0", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "type2", ron: "type2", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: i64 = -5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "f3", ron: "f3", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "_5", ron: "_5", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDi64_5().to_val()), is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: i64 = -5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: i64 = -5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "some_10", ron: "some_10", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "_11", ron: "_11", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: i64 = -5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDi64_12().to_val()), is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MDi64_13().to_val()), is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MDi64 { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val()]) }
}
fn mw_MDi64_5() -> i64 { <i64 as Subject>::from_val(&vcore::gen::sample::<i64>(1129)) }
fn mw_MDi64_12() -> i64 { <i64 as Subject>::from_val(&vcore::gen::sample::<i64>(1136)) }
fn mw_MDi64_13() -> i64 { <i64 as Subject>::from_val(&vcore::gen::sample::<i64>(1137)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum MEi64 {
    V0 { f1: (u8, String) },
    V1 { #[nserde(rename = "N3")] f3: i64, f4: u8, #[nserde(default)] f5: u8 },
    V2 { #[nserde(rename = "type8", skip)] f8: String, #[nserde(default)] f6: i64, f7: String },
    V3 { f10: String, f11: String, #[nserde(default = "-5")] f9: i64 },
    V4 { f13: String, #[nserde(default, rename = "type14")] f14: String },
    V5 { #[nserde(skip)] f15: i64, f16: Option<u8> },
    V6 { #[nserde(default, rename = "Ren18")] f18: i64, #[nserde(skip)] f20: String, f19: String },
    V7 { f22: Option<u8>, #[nserde(default_with = "mw_MEi64_23", rename = "_23")] f23: Option<u8>, #[nserde(default = "-5", rename = "N21")] f21: i64 },
    V8 { #[nserde(default_with = "mw_MEi64_24")] #[nserde(rename = "Ren24")] f24: i64, #[nserde(skip, rename = "type26")] f26: String, f25: String },
    V9 { f28: bool, #[nserde(default_with = "mw_MEi64_29")] f29: bool, #[nserde(skip)] #[nserde(rename = "N27")] f27: i64 },
    V10 { f31: Option<String>, #[nserde(skip, default)] f30: i64, #[nserde(skip)] #[nserde(default = "x")] #[nserde(rename = "type32")] f32: Option<String> },
    V11 { #[nserde(default = "-5", skip)] f33: i64, f34: MKind, #[nserde(default = "MKind::B(4)")] f35: MKind },
    V12 { #[nserde(default_with = "mw_MEi64_36")] #[nserde(skip)] f36: i64, #[nserde(rename = "type38")] f38: Option<f64>, f37: Option<f64> },
    V13 { f40: Option<bool>, #[nserde(default_with = "mw_MEi64_41")] f41: Option<bool>, #[nserde(skip)] #[nserde(rename = "N39")] #[nserde(default)] f39: i64 },
    V14 { #[nserde(skip)] #[nserde(default = "vec![None, Some(1)]")] #[nserde(rename = "type44")] f44: Option<Vec<Option<u8>>>, f43: Option<Vec<Option<u8>>>, #[nserde(rename = "Ren42")] #[nserde(default = "-5")] #[nserde(skip)] f42: i64 },
}
impl Subject for MEi64 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "MEi64", variants: &[VariantDef { name: "V0", json: "V0", kind: Kind::Named, fields: &[FieldDef { name: "f1", json: "f1", ron: "f1", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }] }, VariantDef { name: "V1", json: "V1", kind: Kind::Named, fields: &[FieldDef { name: "f3", json: "N3", ron: "N3", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f4", json: "f4", ron: "f4", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f5", json: "f5", ron: "f5", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }] }, VariantDef { name: "V2", json: "V2", kind: Kind::Named, fields: &[FieldDef { name: "f8", json: "type8", ron: "type8", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f6", json: "f6", ron: "f6", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f7", json: "f7", ron: "f7", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V3", json: "V3", kind: Kind::Named, fields: &[FieldDef { name: "f10", json: "f10", ron: "f10", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f11", json: "f11", ron: "f11", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f9", json: "f9", ron: "f9", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: i64 = -5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }] }, VariantDef { name: "V4", json: "V4", kind: Kind::Named, fields: &[FieldDef { name: "f13", json: "f13", ron: "f13", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f14", json: "type14", ron: "type14", ty: <String as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V5", json: "V5", kind: Kind::Named, fields: &[FieldDef { name: "f15", json: "f15", ron: "f15", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f16", json: "f16", ron: "f16", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] }, VariantDef { name: "V6", json: "V6", kind: Kind::Named, fields: &[FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f20", json: "f20", ron: "f20", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f19", json: "f19", ron: "f19", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V7", json: "V7", kind: Kind::Named, fields: &[FieldDef { name: "f22", json: "f22", ron: "f22", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }, FieldDef { name: "f23", json: "_23", ron: "_23", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEi64_23().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }, FieldDef { name: "f21", json: "N21", ron: "N21", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: i64 = -5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }] }, VariantDef { name: "V8", json: "V8", kind: Kind::Named, fields: &[FieldDef { name: "f24", json: "Ren24", ron: "Ren24", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEi64_24().to_val()), is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f26", json: "type26", ron: "type26", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f25", json: "f25", ron: "f25", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V9", json: "V9", kind: Kind::Named, fields: &[FieldDef { name: "f28", json: "f28", ron: "f28", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f29", json: "f29", ron: "f29", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEi64_29().to_val()), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f27", json: "N27", ron: "N27", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }] }, VariantDef { name: "V10", json: "V10", kind: Kind::Named, fields: &[FieldDef { name: "f31", json: "f31", ron: "f31", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f30", json: "f30", ron: "f30", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f32", json: "type32", ron: "type32", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }] }, VariantDef { name: "V11", json: "V11", kind: Kind::Named, fields: &[FieldDef { name: "f33", json: "f33", ron: "f33", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: i64 = -5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f34", json: "f34", ron: "f34", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }, FieldDef { name: "f35", json: "f35", ron: "f35", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: MKind = MKind::B(4); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }] }, VariantDef { name: "V12", json: "V12", kind: Kind::Named, fields: &[FieldDef { name: "f36", json: "f36", ron: "f36", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEi64_36().to_val()), is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f38", json: "type38", ron: "type38", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f37", json: "f37", ron: "f37", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }] }, VariantDef { name: "V13", json: "V13", kind: Kind::Named, fields: &[FieldDef { name: "f40", json: "f40", ron: "f40", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }, FieldDef { name: "f41", json: "f41", ron: "f41", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEi64_41().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }, FieldDef { name: "f39", json: "N39", ron: "N39", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }] }, VariantDef { name: "V14", json: "V14", kind: Kind::Named, fields: &[FieldDef { name: "f44", json: "type44", ron: "type44", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f43", json: "f43", ron: "f43", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f42", json: "Ren42", ron: "Ren42", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: i64 = -5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::V0 { f1: Subject::from_val(&x_[0]) }, 1 => Self::V1 { f3: Subject::from_val(&x_[0]), f4: Subject::from_val(&x_[1]), f5: Subject::from_val(&x_[2]) }, 2 => Self::V2 { f8: Subject::from_val(&x_[0]), f6: Subject::from_val(&x_[1]), f7: Subject::from_val(&x_[2]) }, 3 => Self::V3 { f10: Subject::from_val(&x_[0]), f11: Subject::from_val(&x_[1]), f9: Subject::from_val(&x_[2]) }, 4 => Self::V4 { f13: Subject::from_val(&x_[0]), f14: Subject::from_val(&x_[1]) }, 5 => Self::V5 { f15: Subject::from_val(&x_[0]), f16: Subject::from_val(&x_[1]) }, 6 => Self::V6 { f18: Subject::from_val(&x_[0]), f20: Subject::from_val(&x_[1]), f19: Subject::from_val(&x_[2]) }, 7 => Self::V7 { f22: Subject::from_val(&x_[0]), f23: Subject::from_val(&x_[1]), f21: Subject::from_val(&x_[2]) }, 8 => Self::V8 { f24: Subject::from_val(&x_[0]), f26: Subject::from_val(&x_[1]), f25: Subject::from_val(&x_[2]) }, 9 => Self::V9 { f28: Subject::from_val(&x_[0]), f29: Subject::from_val(&x_[1]), f27: Subject::from_val(&x_[2]) }, 10 => Self::V10 { f31: Subject::from_val(&x_[0]), f30: Subject::from_val(&x_[1]), f32: Subject::from_val(&x_[2]) }, 11 => Self::V11 { f33: Subject::from_val(&x_[0]), f34: Subject::from_val(&x_[1]), f35: Subject::from_val(&x_[2]) }, 12 => Self::V12 { f36: Subject::from_val(&x_[0]), f38: Subject::from_val(&x_[1]), f37: Subject::from_val(&x_[2]) }, 13 => Self::V13 { f40: Subject::from_val(&x_[0]), f41: Subject::from_val(&x_[1]), f39: Subject::from_val(&x_[2]) }, 14 => Self::V14 { f44: Subject::from_val(&x_[0]), f43: Subject::from_val(&x_[1]), f42: Subject::from_val(&x_[2]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::V0 { f1: b0 } => Val::Enum(0, vec![b0.to_val()]), Self::V1 { f3: b0, f4: b1, f5: b2 } => Val::Enum(1, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V2 { f8: b0, f6: b1, f7: b2 } => Val::Enum(2, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V3 { f10: b0, f11: b1, f9: b2 } => Val::Enum(3, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V4 { f13: b0, f14: b1 } => Val::Enum(4, vec![b0.to_val(), b1.to_val()]), Self::V5 { f15: b0, f16: b1 } => Val::Enum(5, vec![b0.to_val(), b1.to_val()]), Self::V6 { f18: b0, f20: b1, f19: b2 } => Val::Enum(6, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V7 { f22: b0, f23: b1, f21: b2 } => Val::Enum(7, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V8 { f24: b0, f26: b1, f25: b2 } => Val::Enum(8, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V9 { f28: b0, f29: b1, f27: b2 } => Val::Enum(9, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V10 { f31: b0, f30: b1, f32: b2 } => Val::Enum(10, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V11 { f33: b0, f34: b1, f35: b2 } => Val::Enum(11, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V12 { f36: b0, f38: b1, f37: b2 } => Val::Enum(12, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V13 { f40: b0, f41: b1, f39: b2 } => Val::Enum(13, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V14 { f44: b0, f43: b1, f42: b2 } => Val::Enum(14, vec![b0.to_val(), b1.to_val(), b2.to_val()]), } }
}
fn mw_MEi64_12() -> i64 { <i64 as Subject>::from_val(&vcore::gen::sample::<i64>(1167)) }
fn mw_MEi64_23() -> Option<u8> { <Option<u8> as Subject>::from_val(&vcore::gen::sample::<Option<u8>>(1178)) }
fn mw_MEi64_24() -> i64 { <i64 as Subject>::from_val(&vcore::gen::sample::<i64>(1179)) }
fn mw_MEi64_29() -> bool { <bool as Subject>::from_val(&vcore::gen::sample::<bool>(1184)) }
fn mw_MEi64_36() -> i64 { <i64 as Subject>::from_val(&vcore::gen::sample::<i64>(1191)) }
fn mw_MEi64_41() -> Option<bool> { <Option<bool> as Subject>::from_val(&vcore::gen::sample::<Option<bool>>(1196)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct MSf32 {
    #[nserde(skip)] #[nserde(rename = "Ren0")] pub f0: f32,
    #[nserde(rename = "ключ_1")] #[nserde(default = 1.5)] pub f1: f32,
    pub f2: f32,
    #[nserde(default_with = "mw_MSf32_3")] pub f3: f32,
    #[nserde(skip)] #[nserde(default = 1.5)] pub f4: f32,
    #[nserde(rename = "_5")] pub f5: f32,
    #[nserde(default_with = "mw_MSf32_6", skip)] pub f6: f32,
    #[nserde(skip)] pub f7: f32,
    #[nserde(default, skip, rename = "type8")] pub f8: f32,
    #[nserde(default_with = "mw_MSf32_9", rename = "N9")] pub f9: f32,
    #[nserde(default)] #[nserde(rename = "some_10")] pub f10: f32,
    #[nserde(skip, rename = "_11", default = 1.5)] pub f11: f32,
    #[nserde(default = 1.5)] pub f12: f32,
    #[nserde(skip)] #[nserde(default)] pub f13: f32,
    #[nserde(default)] pub f14: f32,
}
impl Subject for MSf32  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MSf32", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "Ren0", ron: "Ren0", ty: <f32 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: f32 = 1.5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "f3", ron: "f3", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSf32_3().to_val()), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <f32 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: f32 = 1.5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "_5", ron: "_5", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <f32 as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MSf32_6().to_val()), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <f32 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "type8", ron: "type8", ty: <f32 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "N9", ron: "N9", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSf32_9().to_val()), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "some_10", ron: "some_10", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "_11", ron: "_11", ty: <f32 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: f32 = 1.5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: f32 = 1.5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <f32 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MSf32 { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val()]) }
}
fn mw_MSf32_3() -> f32 { <f32 as Subject>::from_val(&vcore::gen::sample::<f32>(1189)) }
fn mw_MSf32_6() -> f32 { <f32 as Subject>::from_val(&vcore::gen::sample::<f32>(1192)) }
fn mw_MSf32_9() -> f32 { <f32 as Subject>::from_val(&vcore::gen::sample::<f32>(1195)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default)]
pub struct MDf32 {
    #[nserde(rename = "Ren0")] pub f0: f32,
    #[nserde(default = 1.5)] pub f1: f32,
    #[nserde(default = 1.5, skip)] pub f2: f32,
    #[nserde(rename = "N3", skip)] pub f3: f32,
    pub f4: f32,
    #[nserde(default_with = "mw_MDf32_5", rename = "_5")] pub f5: f32,
    #[nserde(skip)] pub f6: f32,
    #[nserde(default = 1.5, rename = "ключ_7")] pub f7: f32,
    #[nserde(default = 1.5)] #[nserde(skip)] #[nserde(rename = "type8")] pub f8: f32,
    #[nserde(skip)] #[nserde(default_with = "mw_MDf32_9")] pub f9: f32,
    #[nserde(default_with = "mw_MDf32_10")] pub f10: f32,
    #[nserde(default, skip)] pub f11: f32,
    #[nserde(rename = "Ren12", default)] pub f12: f32,
    #[nserde(skip)] #[nserde(rename = "ключ_13")] #[nserde(default)] pub f13: f32,
    #[nserde(default)] pub f14: f32,
}
impl Subject for MDf32  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MDf32", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "Ren0", ron: "Ren0", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: f32 = 1.5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <f32 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: f32 = 1.5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <f32 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "_5", ron: "_5", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDf32_5().to_val()), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <f32 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "ключ_7", ron: "ключ_7", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: f32 = 1.5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "type8", ron: "type8", ty: <f32 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: f32 = 1.5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <f32 as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MDf32_9().to_val()), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDf32_10().to_val()), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <f32 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "Ren12", ron: "Ren12", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "ключ_13", ron: "ключ_13", ty: <f32 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MDf32 { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val()]) }
}
fn mw_MDf32_5() -> f32 { <f32 as Subject>::from_val(&vcore::gen::sample::<f32>(1222)) }
fn mw_MDf32_9() -> f32 { <f32 as Subject>::from_val(&vcore::gen::sample::<f32>(1226)) }
fn mw_MDf32_10() -> f32 { <f32 as Subject>::from_val(&vcore::gen::sample::<f32>(1227)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum MEf32 {
    V0 { #[nserde(rename = "type2")] f2: Option<bool> },
    V1 { #[nserde(default, skip)] f5: Vec<String>, f4: Vec<String>, #[nserde(rename = "N3")] f3: f32 },
    V2 { #[nserde(default_with = "mw_MEf32_8")] f8: i16, #[nserde(default)] f6: f32, f7: i16 },
    V3 { f10: i64, f11: i64, #[nserde(default = 1.5)] f9: f32 },
    V4 { #[nserde(default_with = "mw_MEf32_12")] f12: f32, f13: Option<bool>, #[nserde(skip, rename = "type14", default = true)] f14: Option<bool> },
    V5 { #[nserde(rename = "_17", skip, default)] f17: Option<String>, f16: Option<String>, #[nserde(skip)] f15: f32 },
    V6 { f19: Option<Vec<Option<u8>>>, #[nserde(skip)] f20: Option<Vec<Option<u8>>>, #[nserde(default)] #[nserde(rename = "Ren18")] f18: f32 },
    V7 { #[nserde(rename = "N21")] #[nserde(default = 1.5)] f21: f32, f22: String, #[nserde(rename = "_23")] f23: String },
    V8 { f26: Vec<String>, #[nserde(default_with = "mw_MEf32_24", rename = "Ren24")] f24: f32 },
    V9 { #[nserde(rename = "N27")] #[nserde(skip)] f27: f32, f28: u8 },
    V10 { #[nserde(skip)] f32: Option<f64>, #[nserde(default)] #[nserde(skip)] f30: f32, f31: Option<f64> },
    V11 { f34: Option<u8> },
    V12 { f37: (u8, String), #[nserde(skip)] #[nserde(default_with = "mw_MEf32_36")] f36: f32, #[nserde(skip)] #[nserde(default)] f38: (u8, String) },
    V13 { f40: Option<MKind>, #[nserde(rename = "N39", skip, default)] f39: f32, #[nserde(default = "MKind::C { a: None }")] #[nserde(rename = "_41")] f41: Option<MKind> },
    V14 { f43: Option<u8>, #[nserde(rename = "Ren42", default = 1.5, skip)] f42: f32, #[nserde(skip, default_with = "mw_MEf32_44")] f44: Option<u8> },
}
impl Subject for MEf32 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "MEf32", variants: &[VariantDef { name: "V0", json: "V0", kind: Kind::Named, fields: &[FieldDef { name: "f2", json: "type2", ron: "type2", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }] }, VariantDef { name: "V1", json: "V1", kind: Kind::Named, fields: &[FieldDef { name: "f5", json: "f5", ron: "f5", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f3", json: "N3", ron: "N3", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }] }, VariantDef { name: "V2", json: "V2", kind: Kind::Named, fields: &[FieldDef { name: "f8", json: "f8", ron: "f8", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEf32_8().to_val()), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }, FieldDef { name: "f6", json: "f6", ron: "f6", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }, FieldDef { name: "f7", json: "f7", ron: "f7", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }] }, VariantDef { name: "V3", json: "V3", kind: Kind::Named, fields: &[FieldDef { name: "f10", json: "f10", ron: "f10", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f11", json: "f11", ron: "f11", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f9", json: "f9", ron: "f9", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: f32 = 1.5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }] }, VariantDef { name: "V4", json: "V4", kind: Kind::Named, fields: &[FieldDef { name: "f12", json: "f12", ron: "f12", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEf32_12().to_val()), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }, FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }, FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }] }, VariantDef { name: "V5", json: "V5", kind: Kind::Named, fields: &[FieldDef { name: "f17", json: "_17", ron: "_17", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f16", json: "f16", ron: "f16", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f15", json: "f15", ron: "f15", ty: <f32 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }] }, VariantDef { name: "V6", json: "V6", kind: Kind::Named, fields: &[FieldDef { name: "f19", json: "f19", ron: "f19", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f20", json: "f20", ron: "f20", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }] }, VariantDef { name: "V7", json: "V7", kind: Kind::Named, fields: &[FieldDef { name: "f21", json: "N21", ron: "N21", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: f32 = 1.5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }, FieldDef { name: "f22", json: "f22", ron: "f22", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f23", json: "_23", ron: "_23", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V8", json: "V8", kind: Kind::Named, fields: &[FieldDef { name: "f26", json: "f26", ron: "f26", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f24", json: "Ren24", ron: "Ren24", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEf32_24().to_val()), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }] }, VariantDef { name: "V9", json: "V9", kind: Kind::Named, fields: &[FieldDef { name: "f27", json: "N27", ron: "N27", ty: <f32 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }, FieldDef { name: "f28", json: "f28", ron: "f28", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }] }, VariantDef { name: "V10", json: "V10", kind: Kind::Named, fields: &[FieldDef { name: "f32", json: "f32", ron: "f32", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f30", json: "f30", ron: "f30", ty: <f32 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }, FieldDef { name: "f31", json: "f31", ron: "f31", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }] }, VariantDef { name: "V11", json: "V11", kind: Kind::Named, fields: &[FieldDef { name: "f34", json: "f34", ron: "f34", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] }, VariantDef { name: "V12", json: "V12", kind: Kind::Named, fields: &[FieldDef { name: "f37", json: "f37", ron: "f37", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }, FieldDef { name: "f36", json: "f36", ron: "f36", ty: <f32 as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEf32_36().to_val()), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }, FieldDef { name: "f38", json: "f38", ron: "f38", ty: <(u8, String) as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }] }, VariantDef { name: "V13", json: "V13", kind: Kind::Named, fields: &[FieldDef { name: "f40", json: "f40", ron: "f40", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f39", json: "N39", ron: "N39", ty: <f32 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }, FieldDef { name: "f41", json: "_41", ron: "_41", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }] }, VariantDef { name: "V14", json: "V14", kind: Kind::Named, fields: &[FieldDef { name: "f43", json: "f43", ron: "f43", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }, FieldDef { name: "f42", json: "Ren42", ron: "Ren42", ty: <f32 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: f32 = 1.5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }, FieldDef { name: "f44", json: "f44", ron: "f44", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEf32_44().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::V0 { f2: Subject::from_val(&x_[0]) }, 1 => Self::V1 { f5: Subject::from_val(&x_[0]), f4: Subject::from_val(&x_[1]), f3: Subject::from_val(&x_[2]) }, 2 => Self::V2 { f8: Subject::from_val(&x_[0]), f6: Subject::from_val(&x_[1]), f7: Subject::from_val(&x_[2]) }, 3 => Self::V3 { f10: Subject::from_val(&x_[0]), f11: Subject::from_val(&x_[1]), f9: Subject::from_val(&x_[2]) }, 4 => Self::V4 { f12: Subject::from_val(&x_[0]), f13: Subject::from_val(&x_[1]), f14: Subject::from_val(&x_[2]) }, 5 => Self::V5 { f17: Subject::from_val(&x_[0]), f16: Subject::from_val(&x_[1]), f15: Subject::from_val(&x_[2]) }, 6 => Self::V6 { f19: Subject::from_val(&x_[0]), f20: Subject::from_val(&x_[1]), f18: Subject::from_val(&x_[2]) }, 7 => Self::V7 { f21: Subject::from_val(&x_[0]), f22: Subject::from_val(&x_[1]), f23: Subject::from_val(&x_[2]) }, 8 => Self::V8 { f26: Subject::from_val(&x_[0]), f24: Subject::from_val(&x_[1]) }, 9 => Self::V9 { f27: Subject::from_val(&x_[0]), f28: Subject::from_val(&x_[1]) }, 10 => Self::V10 { f32: Subject::from_val(&x_[0]), f30: Subject::from_val(&x_[1]), f31: Subject::from_val(&x_[2]) }, 11 => Self::V11 { f34: Subject::from_val(&x_[0]) }, 12 => Self::V12 { f37: Subject::from_val(&x_[0]), f36: Subject::from_val(&x_[1]), f38: Subject::from_val(&x_[2]) }, 13 => Self::V13 { f40: Subject::from_val(&x_[0]), f39: Subject::from_val(&x_[1]), f41: Subject::from_val(&x_[2]) }, 14 => Self::V14 { f43: Subject::from_val(&x_[0]), f42: Subject::from_val(&x_[1]), f44: Subject::from_val(&x_[2]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::V0 { f2: b0 } => Val::Enum(0, vec![b0.to_val()]), Self::V1 { f5: b0, f4: b1, f3: b2 } => Val::Enum(1, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V2 { f8: b0, f6: b1, f7: b2 } => Val::Enum(2, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V3 { f10: b0, f11: b1, f9: b2 } => Val::Enum(3, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V4 { f12: b0, f13: b1, f14: b2 } => Val::Enum(4, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V5 { f17: b0, f16: b1, f15: b2 } => Val::Enum(5, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V6 { f19: b0, f20: b1, f18: b2 } => Val::Enum(6, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V7 { f21: b0, f22: b1, f23: b2 } => Val::Enum(7, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V8 { f26: b0, f24: b1 } => Val::Enum(8, vec![b0.to_val(), b1.to_val()]), Self::V9 { f27: b0, f28: b1 } => Val::Enum(9, vec![b0.to_val(), b1.to_val()]), Self::V10 { f32: b0, f30: b1, f31: b2 } => Val::Enum(10, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V11 { f34: b0 } => Val::Enum(11, vec![b0.to_val()]), Self::V12 { f37: b0, f36: b1, f38: b2 } => Val::Enum(12, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V13 { f40: b0, f39: b1, f41: b2 } => Val::Enum(13, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V14 { f43: b0, f42: b1, f44: b2 } => Val::Enum(14, vec![b0.to_val(), b1.to_val(), b2.to_val()]), } }
}
fn mw_MEf32_8() -> i16 { <i16 as Subject>::from_val(&vcore::gen::sample::<i16>(1256)) }
fn mw_MEf32_12() -> f32 { <f32 as Subject>::from_val(&vcore::gen::sample::<f32>(1260)) }
fn mw_MEf32_24() -> f32 { <f32 as Subject>::from_val(&vcore::gen::sample::<f32>(1272)) }
fn mw_MEf32_35() -> Option<u8> { <Option<u8> as Subject>::from_val(&vcore::gen::sample::<Option<u8>>(1283)) }
fn mw_MEf32_36() -> f32 { <f32 as Subject>::from_val(&vcore::gen::sample::<f32>(1284)) }
fn mw_MEf32_44() -> Option<u8> { <Option<u8> as Subject>::from_val(&vcore::gen::sample::<Option<u8>>(1292)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct MSbool {
    #[nserde(default = "true", rename = "Ren0", skip)] pub f0: bool,
    #[nserde(default_with = "mw_MSbool_1")] pub f1: bool,
    #[nserde(skip)] pub f2: bool,
    #[nserde(default)] #[nserde(rename = "N3")] pub f3: bool,
    #[nserde(default)] pub f4: bool,
    #[nserde(default_with = "mw_MSbool_5")] #[nserde(rename = "_5")] pub f5: bool,
    #[nserde(default = "true", rename = "Ren6")] pub f6: bool,
    pub f7: bool,
    #[nserde(rename = "type8")] pub f8: bool,
    #[nserde(default = "true")] pub f9: bool,
    #[nserde(default, rename = "some_10", skip)] pub f10: bool,
    #[nserde(skip, default)] pub f11: bool,
    #[nserde(default = "true")] #[nserde(skip)] pub f12: bool,
    #[nserde(skip, default_with = "mw_MSbool_13")] pub f13: bool,
    #[nserde(skip, rename = "type14")] pub f14: bool,
}
impl Subject for MSbool  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MSbool", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "Ren0", ron: "Ren0", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: bool = true; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSbool_1().to_val()), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "_5", ron: "_5", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSbool_5().to_val()), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: bool = true; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "type8", ron: "type8", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: bool = true; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "some_10", ron: "some_10", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: bool = true; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MSbool_13().to_val()), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MSbool { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val()]) }
}
fn mw_MSbool_1() -> bool { <bool as Subject>::from_val(&vcore::gen::sample::<bool>(1280)) }
fn mw_MSbool_5() -> bool { <bool as Subject>::from_val(&vcore::gen::sample::<bool>(1284)) }
fn mw_MSbool_13() -> bool { <bool as Subject>::from_val(&vcore::gen::sample::<bool>(1292)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default)]
pub struct MDbool {
    #[nserde(skip, rename = "Ren0")] pub f0: bool,
    #[nserde(rename = "ключ_1")] #[nserde(default_with = "mw_MDbool_1")] pub f1: bool,
    #[nserde(default_with = "mw_MDbool_2")] pub f2: bool,
    pub f3: bool,
    #[nserde(default)] pub f4: bool,
    #[nserde(skip)] pub f5: bool,
    #[nserde(rename = "Ren6", default, skip)] pub f6: bool,
    #[nserde(rename = "ключ_7")] pub f7: bool,
    #[nserde(default)] #[nserde(rename = "type8")] pub f8: bool,
    #[nserde(skip)] #[nserde(default_with = "mw_MDbool_9")] pub f9: bool,
    #[nserde(default = "true", rename = "some_10")] pub f10: bool,
    #[nserde(default)] #[nserde(skip)] pub f11: bool,
    #[nserde(default = "true")] #[nserde(skip)] pub f12: bool,
    #[nserde(skip, rename = "ключ_13", default = "true")] pub f13: bool,
    #[nserde(default = "true")] pub f14: bool,
}
impl Subject for MDbool  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MDbool", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "Ren0", ron: "Ren0", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDbool_1().to_val()), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDbool_2().to_val()), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "f3", ron: "f3", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "ключ_7", ron: "ключ_7", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "type8", ron: "type8", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MDbool_9().to_val()), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "some_10", ron: "some_10", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: bool = true; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: bool = true; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "ключ_13", ron: "ключ_13", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: bool = true; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: bool = true; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MDbool { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val()]) }
}
fn mw_MDbool_1() -> bool { <bool as Subject>::from_val(&vcore::gen::sample::<bool>(1311)) }
fn mw_MDbool_2() -> bool { <bool as Subject>::from_val(&vcore::gen::sample::<bool>(1312)) }
fn mw_MDbool_9() -> bool { <bool as Subject>::from_val(&vcore::gen::sample::<bool>(1319)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum MEbool {
    V0 { #[nserde(default = "x")] f2: Option<String>, f0: bool, f1: Option<String> },
    V1 { #[nserde(default_with = "mw_MEbool_5")] f5: u8, #[nserde(rename = "N3")] f3: bool, f4: u8 },
    V2 { #[nserde(default_with = "mw_MEbool_8")] f8: MKind, #[nserde(default)] f6: bool, f7: MKind },
    V3 { f10: Option<f64>, #[nserde(default = "true")] f9: bool, #[nserde(rename = "_11")] f11: Option<f64> },
    V4 { #[nserde(skip)] f14: String, f13: String, #[nserde(default_with = "mw_MEbool_12")] f12: bool },
    V5 { #[nserde(skip)] f15: bool },
    V6 { #[nserde(rename = "Ren18", default)] f18: bool },
    V7 { #[nserde(skip)] f23: Option<Vec<String>>, #[nserde(default = "true")] #[nserde(rename = "N21")] f21: bool, f22: Option<Vec<String>> },
    V8 { #[nserde(default_with = "mw_MEbool_24", rename = "Ren24")] f24: bool, #[nserde(default_with = "mw_MEbool_26")] f26: Option<f64> },
    V9 { #[nserde(rename = "_29", default)] f29: Option<MSmall>, #[nserde(skip)] #[nserde(rename = "N27")] f27: bool, f28: Option<MSmall> },
    V10 { #[nserde(skip)] #[nserde(default)] f30: bool, #[nserde(default_with = "mw_MEbool_32")] f32: Vec<String> },
    V11 { f34: MSmall, #[nserde(skip, default = "true")] f33: bool, #[nserde(default, skip)] f35: MSmall },
    V12 { #[nserde(default_with = "mw_MEbool_36")] #[nserde(skip)] f36: bool, #[nserde(skip, default_with = "mw_MEbool_38")] f38: i64, f37: i64 },
    V13 { #[nserde(skip)] #[nserde(default)] #[nserde(rename = "N39")] f39: bool, #[nserde(default_with = "mw_MEbool_41")] f41: String, f40: String },
    V14 { #[nserde(rename = "Ren42", skip, default = "true")] f42: bool, #[nserde(default_with = "mw_MEbool_44")] f44: Option<Vec<Option<u8>>>, f43: Option<Vec<Option<u8>>> },
}
impl Subject for MEbool {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "MEbool", variants: &[VariantDef { name: "V0", json: "V0", kind: Kind::Named, fields: &[FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f0", json: "f0", ron: "f0", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }] }, VariantDef { name: "V1", json: "V1", kind: Kind::Named, fields: &[FieldDef { name: "f5", json: "f5", ron: "f5", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEbool_5().to_val()), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f3", json: "N3", ron: "N3", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f4", json: "f4", ron: "f4", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }] }, VariantDef { name: "V2", json: "V2", kind: Kind::Named, fields: &[FieldDef { name: "f8", json: "f8", ron: "f8", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEbool_8().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }, FieldDef { name: "f6", json: "f6", ron: "f6", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f7", json: "f7", ron: "f7", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }] }, VariantDef { name: "V3", json: "V3", kind: Kind::Named, fields: &[FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f9", json: "f9", ron: "f9", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: bool = true; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f11", json: "_11", ron: "_11", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }] }, VariantDef { name: "V4", json: "V4", kind: Kind::Named, fields: &[FieldDef { name: "f14", json: "f14", ron: "f14", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f13", json: "f13", ron: "f13", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f12", json: "f12", ron: "f12", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEbool_12().to_val()), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] }, VariantDef { name: "V5", json: "V5", kind: Kind::Named, fields: &[FieldDef { name: "f15", json: "f15", ron: "f15", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] }, VariantDef { name: "V6", json: "V6", kind: Kind::Named, fields: &[FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] }, VariantDef { name: "V7", json: "V7", kind: Kind::Named, fields: &[FieldDef { name: "f23", json: "f23", ron: "f23", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f21", json: "N21", ron: "N21", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: bool = true; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f22", json: "f22", ron: "f22", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }] }, VariantDef { name: "V8", json: "V8", kind: Kind::Named, fields: &[FieldDef { name: "f24", json: "Ren24", ron: "Ren24", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEbool_24().to_val()), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f26", json: "f26", ron: "f26", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEbool_26().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }] }, VariantDef { name: "V9", json: "V9", kind: Kind::Named, fields: &[FieldDef { name: "f29", json: "_29", ron: "_29", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }, FieldDef { name: "f27", json: "N27", ron: "N27", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f28", json: "f28", ron: "f28", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }] }, VariantDef { name: "V10", json: "V10", kind: Kind::Named, fields: &[FieldDef { name: "f30", json: "f30", ron: "f30", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f32", json: "f32", ron: "f32", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEbool_32().to_val()), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }] }, VariantDef { name: "V11", json: "V11", kind: Kind::Named, fields: &[FieldDef { name: "f34", json: "f34", ron: "f34", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }, FieldDef { name: "f33", json: "f33", ron: "f33", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: bool = true; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f35", json: "f35", ron: "f35", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }] }, VariantDef { name: "V12", json: "V12", kind: Kind::Named, fields: &[FieldDef { name: "f36", json: "f36", ron: "f36", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEbool_36().to_val()), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f38", json: "f38", ron: "f38", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEbool_38().to_val()), is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f37", json: "f37", ron: "f37", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }] }, VariantDef { name: "V13", json: "V13", kind: Kind::Named, fields: &[FieldDef { name: "f39", json: "N39", ron: "N39", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f41", json: "f41", ron: "f41", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEbool_41().to_val()), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f40", json: "f40", ron: "f40", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V14", json: "V14", kind: Kind::Named, fields: &[FieldDef { name: "f42", json: "Ren42", ron: "Ren42", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: bool = true; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f44", json: "f44", ron: "f44", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEbool_44().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f43", json: "f43", ron: "f43", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::V0 { f2: Subject::from_val(&x_[0]), f0: Subject::from_val(&x_[1]), f1: Subject::from_val(&x_[2]) }, 1 => Self::V1 { f5: Subject::from_val(&x_[0]), f3: Subject::from_val(&x_[1]), f4: Subject::from_val(&x_[2]) }, 2 => Self::V2 { f8: Subject::from_val(&x_[0]), f6: Subject::from_val(&x_[1]), f7: Subject::from_val(&x_[2]) }, 3 => Self::V3 { f10: Subject::from_val(&x_[0]), f9: Subject::from_val(&x_[1]), f11: Subject::from_val(&x_[2]) }, 4 => Self::V4 { f14: Subject::from_val(&x_[0]), f13: Subject::from_val(&x_[1]), f12: Subject::from_val(&x_[2]) }, 5 => Self::V5 { f15: Subject::from_val(&x_[0]) }, 6 => Self::V6 { f18: Subject::from_val(&x_[0]) }, 7 => Self::V7 { f23: Subject::from_val(&x_[0]), f21: Subject::from_val(&x_[1]), f22: Subject::from_val(&x_[2]) }, 8 => Self::V8 { f24: Subject::from_val(&x_[0]), f26: Subject::from_val(&x_[1]) }, 9 => Self::V9 { f29: Subject::from_val(&x_[0]), f27: Subject::from_val(&x_[1]), f28: Subject::from_val(&x_[2]) }, 10 => Self::V10 { f30: Subject::from_val(&x_[0]), f32: Subject::from_val(&x_[1]) }, 11 => Self::V11 { f34: Subject::from_val(&x_[0]), f33: Subject::from_val(&x_[1]), f35: Subject::from_val(&x_[2]) }, 12 => Self::V12 { f36: Subject::from_val(&x_[0]), f38: Subject::from_val(&x_[1]), f37: Subject::from_val(&x_[2]) }, 13 => Self::V13 { f39: Subject::from_val(&x_[0]), f41: Subject::from_val(&x_[1]), f40: Subject::from_val(&x_[2]) }, 14 => Self::V14 { f42: Subject::from_val(&x_[0]), f44: Subject::from_val(&x_[1]), f43: Subject::from_val(&x_[2]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::V0 { f2: b0, f0: b1, f1: b2 } => Val::Enum(0, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V1 { f5: b0, f3: b1, f4: b2 } => Val::Enum(1, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V2 { f8: b0, f6: b1, f7: b2 } => Val::Enum(2, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V3 { f10: b0, f9: b1, f11: b2 } => Val::Enum(3, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V4 { f14: b0, f13: b1, f12: b2 } => Val::Enum(4, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V5 { f15: b0 } => Val::Enum(5, vec![b0.to_val()]), Self::V6 { f18: b0 } => Val::Enum(6, vec![b0.to_val()]), Self::V7 { f23: b0, f21: b1, f22: b2 } => Val::Enum(7, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V8 { f24: b0, f26: b1 } => Val::Enum(8, vec![b0.to_val(), b1.to_val()]), Self::V9 { f29: b0, f27: b1, f28: b2 } => Val::Enum(9, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V10 { f30: b0, f32: b1 } => Val::Enum(10, vec![b0.to_val(), b1.to_val()]), Self::V11 { f34: b0, f33: b1, f35: b2 } => Val::Enum(11, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V12 { f36: b0, f38: b1, f37: b2 } => Val::Enum(12, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V13 { f39: b0, f41: b1, f40: b2 } => Val::Enum(13, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V14 { f42: b0, f44: b1, f43: b2 } => Val::Enum(14, vec![b0.to_val(), b1.to_val(), b2.to_val()]), } }
}
fn mw_MEbool_5() -> u8 { <u8 as Subject>::from_val(&vcore::gen::sample::<u8>(1346)) }
fn mw_MEbool_8() -> MKind { <MKind as Subject>::from_val(&vcore::gen::sample::<MKind>(1349)) }
fn mw_MEbool_12() -> bool { <bool as Subject>::from_val(&vcore::gen::sample::<bool>(1353)) }
fn mw_MEbool_24() -> bool { <bool as Subject>::from_val(&vcore::gen::sample::<bool>(1365)) }
fn mw_MEbool_26() -> Option<f64> { <Option<f64> as Subject>::from_val(&vcore::gen::sample::<Option<f64>>(1367)) }
fn mw_MEbool_32() -> Vec<String> { <Vec<String> as Subject>::from_val(&vcore::gen::sample::<Vec<String>>(1373)) }
fn mw_MEbool_36() -> bool { <bool as Subject>::from_val(&vcore::gen::sample::<bool>(1377)) }
fn mw_MEbool_38() -> i64 { <i64 as Subject>::from_val(&vcore::gen::sample::<i64>(1379)) }
fn mw_MEbool_41() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(1382)) }
fn mw_MEbool_44() -> Option<Vec<Option<u8>>> { <Option<Vec<Option<u8>>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<Option<u8>>>>(1385)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct MSString {
    #[nserde(default_with = "mw_MSString_0")] pub f0: String,
    pub f1: String,
    #[nserde(default)] #[nserde(rename = "type2")] pub f2: String,
    #[nserde(skip)] #[nserde(rename = "N3")] #[nserde(default)] pub f3: String,
    #[nserde(skip)] pub f4: String,
    #[nserde(rename = "_5")] #[nserde(skip)] pub f5: String,
    #[nserde(default = "a \"b\" {}", rename = "Ren6", skip)] pub f6: String,
    #[nserde(default)] #[nserde(skip)] pub f7: String,
    #[nserde(skip)] #[nserde(default_with = "mw_MSString_8")] pub f8: String,
    #[nserde(default = "a \"b\" {}", skip)] pub f9: String,
    #[nserde(rename = "some_10")] #[nserde(default = "a \"b\" {}")] pub f10: String,
    #[nserde(rename = "_11")] #[nserde(default_with = "mw_MSString_11")] pub f11: String,
    #[nserde(default = "a \"b\" {}")] pub f12: String,
    #[nserde(rename = "ключ_13")] pub f13: String,
    #[nserde(default)] pub f14: String,
}
impl Subject for MSString  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MSString", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSString_0().to_val()), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "type2", ron: "type2", ty: <String as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <String as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "_5", ron: "_5", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <String as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: String = String::from("a \"b\" {}"); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <String as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <String as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MSString_8().to_val()), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <String as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: String = String::from("a \"b\" {}"); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "some_10", ron: "some_10", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: String = String::from("a \"b\" {}"); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "_11", ron: "_11", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSString_11().to_val()), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: String = String::from("a \"b\" {}"); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "ключ_13", ron: "ключ_13", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <String as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MSString { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val()]) }
}
fn mw_MSString_0() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(1372)) }
fn mw_MSString_8() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(1380)) }
fn mw_MSString_11() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(1383)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default)]
pub struct MDString {
    #[nserde(default)] pub f0: String,
    pub f1: String,
    #[nserde(skip)] #[nserde(default_with = "mw_MDString_2")] pub f2: String,
    #[nserde(rename = "N3", skip)] pub f3: String,
    #[nserde(rename = "some_4")] #[nserde(default = "a \"b\" {}")] pub f4: String,
    #[nserde(skip)] pub f5: String,
    #[nserde(rename = "Ren6", skip, default)] pub f6: String,
    #[nserde(default, rename = "ключ_7")] pub f7: String,
    #[nserde(skip)] #[nserde(default = "a \"b\" {}")] pub f8: String,
    #[nserde(default_with = "mw_MDString_9")] pub f9: String,
    #[nserde(rename = "some_10")] pub f10: String,
    #[nserde(default = "a \"b\" {}")] pub f11: String,
    #[nserde(skip, default)] pub f12: String,
    #[nserde(rename = "ключ_13")] #[nserde(default = "a \"b\" {}")] #[nserde(skip)] pub f13: String,
    #[nserde(default_with = "mw_MDString_14")] #[nserde(rename = "type14")] pub f14: String,
}
impl Subject for MDString  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MDString", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <String as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <String as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MDString_2().to_val()), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "some_4", ron: "some_4", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: String = String::from("a \"b\" {}"); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <String as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "ключ_7", ron: "ключ_7", ty: <String as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <String as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: String = String::from("a \"b\" {}"); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDString_9().to_val()), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "some_10", ron: "some_10", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: String = String::from("a \"b\" {}"); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <String as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "ключ_13", ron: "ключ_13", ty: <String as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: String = String::from("a \"b\" {}"); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDString_14().to_val()), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MDString { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val()]) }
}
fn mw_MDString_2() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(1405)) }
fn mw_MDString_9() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(1412)) }
fn mw_MDString_14() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(1417)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum MEString {
    V0 { f1: String, f0: String, #[nserde(default = "a \"b\" {}")] f2: String },
    V1 { #[nserde(rename = "N3")] f3: String, f4: Vec<String>, #[nserde(default)] f5: Vec<String> },
    V2 { #[nserde(skip)] #[nserde(default = "MSmall { x: 3, y: None }")] f8: MSmall },
    V3 { f11: Option<MKind>, f10: Option<MKind>, #[nserde(default = "a \"b\" {}")] f9: String },
    V4 { f13: String, #[nserde(default_with = "mw_MEString_12")] f12: String, #[nserde(skip)] f14: String },
    V5 { #[nserde(skip)] f15: String },
    V6 { #[nserde(rename = "Ren18")] #[nserde(default)] f18: String, f19: BTreeMap<String, u8>, #[nserde(default = "mdflt()")] f20: BTreeMap<String, u8> },
    V7 { #[nserde(rename = "N21")] #[nserde(default = "a \"b\" {}")] f21: String, f22: Option<bool> },
    V8 { #[nserde(skip)] #[nserde(default = -0.5)] f26: Option<f64>, f25: Option<f64>, #[nserde(default_with = "mw_MEString_24", rename = "Ren24")] f24: String },
    V9 { #[nserde(default_with = "mw_MEString_29")] f29: Option<f64>, #[nserde(skip)] #[nserde(rename = "N27")] f27: String, f28: Option<f64> },
    V10 { f31: BTreeMap<String, u8>, #[nserde(rename = "type32", default = "mdflt()")] f32: BTreeMap<String, u8>, #[nserde(skip, default)] f30: String },
    V11 { f34: i64, #[nserde(skip)] #[nserde(default = "a \"b\" {}")] f33: String },
    V12 { #[nserde(skip, default_with = "mw_MEString_36")] f36: String, f37: Option<Vec<String>>, #[nserde(skip)] #[nserde(default = r#"vec![String::from("a\n")]"#)] #[nserde(rename = "type38")] f38: Option<Vec<String>> },
    V13 { f40: (u8, String), #[nserde(rename = "_41")] f41: (u8, String) },
    V14 { #[nserde(default_with = "mw_MEString_44", skip)] f44: MSmall, #[nserde(default = "a \"b\" {}")] #[nserde(skip)] #[nserde(rename = "Ren42")] f42: String },
}
impl Subject for MEString {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "MEString", variants: &[VariantDef { name: "V0", json: "V0", kind: Kind::Named, fields: &[FieldDef { name: "f1", json: "f1", ron: "f1", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f0", json: "f0", ron: "f0", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f2", json: "f2", ron: "f2", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: String = String::from("a \"b\" {}"); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V1", json: "V1", kind: Kind::Named, fields: &[FieldDef { name: "f3", json: "N3", ron: "N3", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f5", json: "f5", ron: "f5", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }] }, VariantDef { name: "V2", json: "V2", kind: Kind::Named, fields: &[FieldDef { name: "f8", json: "f8", ron: "f8", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: MSmall = MSmall { x: 3, y: None }; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }] }, VariantDef { name: "V3", json: "V3", kind: Kind::Named, fields: &[FieldDef { name: "f11", json: "f11", ron: "f11", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f9", json: "f9", ron: "f9", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: String = String::from("a \"b\" {}"); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V4", json: "V4", kind: Kind::Named, fields: &[FieldDef { name: "f13", json: "f13", ron: "f13", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f12", json: "f12", ron: "f12", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEString_12().to_val()), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f14", json: "f14", ron: "f14", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V5", json: "V5", kind: Kind::Named, fields: &[FieldDef { name: "f15", json: "f15", ron: "f15", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V6", json: "V6", kind: Kind::Named, fields: &[FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <String as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f19", json: "f19", ron: "f19", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }, FieldDef { name: "f20", json: "f20", ron: "f20", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: BTreeMap<String, u8> = mdflt(); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }] }, VariantDef { name: "V7", json: "V7", kind: Kind::Named, fields: &[FieldDef { name: "f21", json: "N21", ron: "N21", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: String = String::from("a \"b\" {}"); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f22", json: "f22", ron: "f22", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }] }, VariantDef { name: "V8", json: "V8", kind: Kind::Named, fields: &[FieldDef { name: "f26", json: "f26", ron: "f26", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f25", json: "f25", ron: "f25", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f24", json: "Ren24", ron: "Ren24", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEString_24().to_val()), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V9", json: "V9", kind: Kind::Named, fields: &[FieldDef { name: "f29", json: "f29", ron: "f29", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEString_29().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f27", json: "N27", ron: "N27", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f28", json: "f28", ron: "f28", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }] }, VariantDef { name: "V10", json: "V10", kind: Kind::Named, fields: &[FieldDef { name: "f31", json: "f31", ron: "f31", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }, FieldDef { name: "f32", json: "type32", ron: "type32", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: BTreeMap<String, u8> = mdflt(); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }, FieldDef { name: "f30", json: "f30", ron: "f30", ty: <String as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V11", json: "V11", kind: Kind::Named, fields: &[FieldDef { name: "f34", json: "f34", ron: "f34", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f33", json: "f33", ron: "f33", ty: <String as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: String = String::from("a \"b\" {}"); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V12", json: "V12", kind: Kind::Named, fields: &[FieldDef { name: "f36", json: "f36", ron: "f36", ty: <String as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEString_36().to_val()), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f37", json: "f37", ron: "f37", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f38", json: "type38", ron: "type38", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }] }, VariantDef { name: "V13", json: "V13", kind: Kind::Named, fields: &[FieldDef { name: "f40", json: "f40", ron: "f40", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }, FieldDef { name: "f41", json: "_41", ron: "_41", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }] }, VariantDef { name: "V14", json: "V14", kind: Kind::Named, fields: &[FieldDef { name: "f44", json: "f44", ron: "f44", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEString_44().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }, FieldDef { name: "f42", json: "Ren42", ron: "Ren42", ty: <String as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: String = String::from("a \"b\" {}"); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::V0 { f1: Subject::from_val(&x_[0]), f0: Subject::from_val(&x_[1]), f2: Subject::from_val(&x_[2]) }, 1 => Self::V1 { f3: Subject::from_val(&x_[0]), f4: Subject::from_val(&x_[1]), f5: Subject::from_val(&x_[2]) }, 2 => Self::V2 { f8: Subject::from_val(&x_[0]) }, 3 => Self::V3 { f11: Subject::from_val(&x_[0]), f10: Subject::from_val(&x_[1]), f9: Subject::from_val(&x_[2]) }, 4 => Self::V4 { f13: Subject::from_val(&x_[0]), f12: Subject::from_val(&x_[1]), f14: Subject::from_val(&x_[2]) }, 5 => Self::V5 { f15: Subject::from_val(&x_[0]) }, 6 => Self::V6 { f18: Subject::from_val(&x_[0]), f19: Subject::from_val(&x_[1]), f20: Subject::from_val(&x_[2]) }, 7 => Self::V7 { f21: Subject::from_val(&x_[0]), f22: Subject::from_val(&x_[1]) }, 8 => Self::V8 { f26: Subject::from_val(&x_[0]), f25: Subject::from_val(&x_[1]), f24: Subject::from_val(&x_[2]) }, 9 => Self::V9 { f29: Subject::from_val(&x_[0]), f27: Subject::from_val(&x_[1]), f28: Subject::from_val(&x_[2]) }, 10 => Self::V10 { f31: Subject::from_val(&x_[0]), f32: Subject::from_val(&x_[1]), f30: Subject::from_val(&x_[2]) }, 11 => Self::V11 { f34: Subject::from_val(&x_[0]), f33: Subject::from_val(&x_[1]) }, 12 => Self::V12 { f36: Subject::from_val(&x_[0]), f37: Subject::from_val(&x_[1]), f38: Subject::from_val(&x_[2]) }, 13 => Self::V13 { f40: Subject::from_val(&x_[0]), f41: Subject::from_val(&x_[1]) }, 14 => Self::V14 { f44: Subject::from_val(&x_[0]), f42: Subject::from_val(&x_[1]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::V0 { f1: b0, f0: b1, f2: b2 } => Val::Enum(0, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V1 { f3: b0, f4: b1, f5: b2 } => Val::Enum(1, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V2 { f8: b0 } => Val::Enum(2, vec![b0.to_val()]), Self::V3 { f11: b0, f10: b1, f9: b2 } => Val::Enum(3, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V4 { f13: b0, f12: b1, f14: b2 } => Val::Enum(4, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V5 { f15: b0 } => Val::Enum(5, vec![b0.to_val()]), Self::V6 { f18: b0, f19: b1, f20: b2 } => Val::Enum(6, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V7 { f21: b0, f22: b1 } => Val::Enum(7, vec![b0.to_val(), b1.to_val()]), Self::V8 { f26: b0, f25: b1, f24: b2 } => Val::Enum(8, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V9 { f29: b0, f27: b1, f28: b2 } => Val::Enum(9, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V10 { f31: b0, f32: b1, f30: b2 } => Val::Enum(10, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V11 { f34: b0, f33: b1 } => Val::Enum(11, vec![b0.to_val(), b1.to_val()]), Self::V12 { f36: b0, f37: b1, f38: b2 } => Val::Enum(12, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V13 { f40: b0, f41: b1 } => Val::Enum(13, vec![b0.to_val(), b1.to_val()]), Self::V14 { f44: b0, f42: b1 } => Val::Enum(14, vec![b0.to_val(), b1.to_val()]), } }
}
fn mw_MEString_12() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(1446)) }
fn mw_MEString_17() -> Option<bool> { <Option<bool> as Subject>::from_val(&vcore::gen::sample::<Option<bool>>(1451)) }
fn mw_MEString_24() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(1458)) }
fn mw_MEString_29() -> Option<f64> { <Option<f64> as Subject>::from_val(&vcore::gen::sample::<Option<f64>>(1463)) }
fn mw_MEString_36() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(1470)) }
fn mw_MEString_44() -> MSmall { <MSmall as Subject>::from_val(&vcore::gen::sample::<MSmall>(1478)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct MSi16 {
    #[nserde(default)] #[nserde(rename = "Ren0")] pub f0: i16,
    #[nserde(default_with = "mw_MSi16_1")] pub f1: i16,
    #[nserde(default)] pub f2: i16,
    #[nserde(rename = "N3")] pub f3: i16,
    #[nserde(default)] #[nserde(skip)] pub f4: i16,
    #[nserde(skip)] #[nserde(default_with = "mw_MSi16_5")] pub f5: i16,
    pub f6: i16,
    #[nserde(skip, default = -7)] pub f7: i16,
    #[nserde(rename = "type8")] #[nserde(skip)] pub f8: i16,
    #[nserde(skip)] #[nserde(rename = "N9")] #[nserde(default)] pub f9: i16,
    #[nserde(rename = "some_10", default = -7, skip)] pub f10: i16,
    #[nserde(rename = "_11")] #[nserde(default = -7)] pub f11: i16,
    #[nserde(default_with = "mw_MSi16_12")] #[nserde(rename = "Ren12")] pub f12: i16,
    #[nserde(skip)] pub f13: i16,
    #[nserde(default = -7)] pub f14: i16,
}
impl Subject for MSi16  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MSi16", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "Ren0", ron: "Ren0", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSi16_1().to_val()), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <i16 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <i16 as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MSi16_5().to_val()), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <i16 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: i16 = -7; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "type8", ron: "type8", ty: <i16 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "N9", ron: "N9", ty: <i16 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "some_10", ron: "some_10", ty: <i16 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: i16 = -7; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "_11", ron: "_11", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: i16 = -7; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "Ren12", ron: "Ren12", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSi16_12().to_val()), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <i16 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: i16 = -7; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MSi16 { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val()]) }
}
fn mw_MSi16_1() -> i16 { <i16 as Subject>::from_val(&vcore::gen::sample::<i16>(1466)) }
fn mw_MSi16_5() -> i16 { <i16 as Subject>::from_val(&vcore::gen::sample::<i16>(1470)) }
fn mw_MSi16_12() -> i16 { <i16 as Subject>::from_val(&vcore::gen::sample::<i16>(1477)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default)]
pub struct MDi16 {
    #[nserde(rename = "Ren0", default_with = "mw_MDi16_0")] pub f0: i16,
    #[nserde(default)] pub f1: i16,
    pub f2: i16,
    #[nserde(skip)] pub f3: i16,
    #[nserde(default)] #[nserde(skip)] #[nserde(rename = "some_4")] pub f4: i16,
    #[nserde(rename = "_5")] #[nserde(skip)] #[nserde(default = -7)] pub f5: i16,
    #[nserde(skip, default)] pub f6: i16,
    #[nserde(rename = "ключ_7", skip)] pub f7: i16,
    #[nserde(default_with = "mw_MDi16_8")] pub f8: i16,
    #[nserde(default)] #[nserde(rename = "N9")] pub f9: i16,
    #[nserde(skip)] #[nserde(default_with = "mw_MDi16_10")] pub f10: i16,
    #[nserde(default = -7)] #[nserde(skip)] pub f11: i16,
    #[nserde(rename = "Ren12", default = -7)] pub f12: i16,
    #[nserde(rename = "ключ_13")] pub f13: i16,
    #[nserde(default = -7)] pub f14: i16,
}
impl Subject for MDi16  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MDi16", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "Ren0", ron: "Ren0", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDi16_0().to_val()), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "f3", ron: "f3", ty: <i16 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "some_4", ron: "some_4", ty: <i16 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "_5", ron: "_5", ty: <i16 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: i16 = -7; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <i16 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "ключ_7", ron: "ключ_7", ty: <i16 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDi16_8().to_val()), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "N9", ron: "N9", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <i16 as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MDi16_10().to_val()), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <i16 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: i16 = -7; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "Ren12", ron: "Ren12", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: i16 = -7; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "ключ_13", ron: "ключ_13", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: i16 = -7; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MDi16 { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val()]) }
}
fn mw_MDi16_0() -> i16 { <i16 as Subject>::from_val(&vcore::gen::sample::<i16>(1496)) }
fn mw_MDi16_8() -> i16 { <i16 as Subject>::from_val(&vcore::gen::sample::<i16>(1504)) }
fn mw_MDi16_10() -> i16 { <i16 as Subject>::from_val(&vcore::gen::sample::<i16>(1506)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum MEi16 {
    V0 { f1: f32, f0: i16 },
    V1 { #[nserde(default = "mdflt()")] #[nserde(skip)] f5: BTreeMap<String, u8>, f4: BTreeMap<String, u8>, #[nserde(rename = "N3")] f3: i16 },
    V2 { #[nserde(default)] f6: i16, #[nserde(skip, default = true)] f8: Option<bool> },
    V3 { #[nserde(default = -7)] f9: i16 },
    V4 { f13: i16, #[nserde(default = -7)] f14: i16, #[nserde(default_with = "mw_MEi16_12")] f12: i16 },
    V5 { #[nserde(skip)] f17: Option<f64> },
    V6 { #[nserde(default, rename = "Ren18")] f18: i16, f19: Option<u8>, #[nserde(rename = "type20")] f20: Option<u8> },
    V7 { #[nserde(skip, default, rename = "_23")] f23: bool },
    V8 { f25: Option<f64>, #[nserde(default_with = "mw_MEi16_24", rename = "Ren24")] f24: i16, #[nserde(skip)] f26: Option<f64> },
    V9 { #[nserde(skip)] #[nserde(rename = "N27")] f27: i16 },
    V10 { #[nserde(skip, default)] f30: i16, #[nserde(skip, default)] f32: String, f31: String },
    V11 { #[nserde(default = -7)] #[nserde(skip)] f33: i16 },
    V12 { f37: (u8, String), #[nserde(skip, default_with = "mw_MEi16_36")] f36: i16 },
    V13 { #[nserde(rename = "N39")] #[nserde(skip)] #[nserde(default)] f39: i16, f41: MSmall, f40: MSmall },
    V14 { #[nserde(default, rename = "type44")] f44: u8, #[nserde(skip)] #[nserde(rename = "Ren42")] #[nserde(default = -7)] f42: i16, f43: u8 },
}
impl Subject for MEi16 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "MEi16", variants: &[VariantDef { name: "V0", json: "V0", kind: Kind::Named, fields: &[FieldDef { name: "f1", json: "f1", ron: "f1", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }, FieldDef { name: "f0", json: "f0", ron: "f0", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }] }, VariantDef { name: "V1", json: "V1", kind: Kind::Named, fields: &[FieldDef { name: "f5", json: "f5", ron: "f5", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: BTreeMap<String, u8> = mdflt(); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }, FieldDef { name: "f4", json: "f4", ron: "f4", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }, FieldDef { name: "f3", json: "N3", ron: "N3", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }] }, VariantDef { name: "V2", json: "V2", kind: Kind::Named, fields: &[FieldDef { name: "f6", json: "f6", ron: "f6", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }, FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }] }, VariantDef { name: "V3", json: "V3", kind: Kind::Named, fields: &[FieldDef { name: "f9", json: "f9", ron: "f9", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: i16 = -7; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }] }, VariantDef { name: "V4", json: "V4", kind: Kind::Named, fields: &[FieldDef { name: "f13", json: "f13", ron: "f13", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }, FieldDef { name: "f14", json: "f14", ron: "f14", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: i16 = -7; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }, FieldDef { name: "f12", json: "f12", ron: "f12", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEi16_12().to_val()), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }] }, VariantDef { name: "V5", json: "V5", kind: Kind::Named, fields: &[FieldDef { name: "f17", json: "f17", ron: "f17", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }] }, VariantDef { name: "V6", json: "V6", kind: Kind::Named, fields: &[FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }, FieldDef { name: "f19", json: "f19", ron: "f19", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }, FieldDef { name: "f20", json: "type20", ron: "type20", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] }, VariantDef { name: "V7", json: "V7", kind: Kind::Named, fields: &[FieldDef { name: "f23", json: "_23", ron: "_23", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] }, VariantDef { name: "V8", json: "V8", kind: Kind::Named, fields: &[FieldDef { name: "f25", json: "f25", ron: "f25", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f24", json: "Ren24", ron: "Ren24", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEi16_24().to_val()), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }, FieldDef { name: "f26", json: "f26", ron: "f26", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }] }, VariantDef { name: "V9", json: "V9", kind: Kind::Named, fields: &[FieldDef { name: "f27", json: "N27", ron: "N27", ty: <i16 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }] }, VariantDef { name: "V10", json: "V10", kind: Kind::Named, fields: &[FieldDef { name: "f30", json: "f30", ron: "f30", ty: <i16 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }, FieldDef { name: "f32", json: "f32", ron: "f32", ty: <String as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f31", json: "f31", ron: "f31", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V11", json: "V11", kind: Kind::Named, fields: &[FieldDef { name: "f33", json: "f33", ron: "f33", ty: <i16 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: i16 = -7; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }] }, VariantDef { name: "V12", json: "V12", kind: Kind::Named, fields: &[FieldDef { name: "f37", json: "f37", ron: "f37", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }, FieldDef { name: "f36", json: "f36", ron: "f36", ty: <i16 as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEi16_36().to_val()), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }] }, VariantDef { name: "V13", json: "V13", kind: Kind::Named, fields: &[FieldDef { name: "f39", json: "N39", ron: "N39", ty: <i16 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }, FieldDef { name: "f41", json: "f41", ron: "f41", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }, FieldDef { name: "f40", json: "f40", ron: "f40", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }] }, VariantDef { name: "V14", json: "V14", kind: Kind::Named, fields: &[FieldDef { name: "f44", json: "type44", ron: "type44", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f42", json: "Ren42", ron: "Ren42", ty: <i16 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: i16 = -7; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }, FieldDef { name: "f43", json: "f43", ron: "f43", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::V0 { f1: Subject::from_val(&x_[0]), f0: Subject::from_val(&x_[1]) }, 1 => Self::V1 { f5: Subject::from_val(&x_[0]), f4: Subject::from_val(&x_[1]), f3: Subject::from_val(&x_[2]) }, 2 => Self::V2 { f6: Subject::from_val(&x_[0]), f8: Subject::from_val(&x_[1]) }, 3 => Self::V3 { f9: Subject::from_val(&x_[0]) }, 4 => Self::V4 { f13: Subject::from_val(&x_[0]), f14: Subject::from_val(&x_[1]), f12: Subject::from_val(&x_[2]) }, 5 => Self::V5 { f17: Subject::from_val(&x_[0]) }, 6 => Self::V6 { f18: Subject::from_val(&x_[0]), f19: Subject::from_val(&x_[1]), f20: Subject::from_val(&x_[2]) }, 7 => Self::V7 { f23: Subject::from_val(&x_[0]) }, 8 => Self::V8 { f25: Subject::from_val(&x_[0]), f24: Subject::from_val(&x_[1]), f26: Subject::from_val(&x_[2]) }, 9 => Self::V9 { f27: Subject::from_val(&x_[0]) }, 10 => Self::V10 { f30: Subject::from_val(&x_[0]), f32: Subject::from_val(&x_[1]), f31: Subject::from_val(&x_[2]) }, 11 => Self::V11 { f33: Subject::from_val(&x_[0]) }, 12 => Self::V12 { f37: Subject::from_val(&x_[0]), f36: Subject::from_val(&x_[1]) }, 13 => Self::V13 { f39: Subject::from_val(&x_[0]), f41: Subject::from_val(&x_[1]), f40: Subject::from_val(&x_[2]) }, 14 => Self::V14 { f44: Subject::from_val(&x_[0]), f42: Subject::from_val(&x_[1]), f43: Subject::from_val(&x_[2]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::V0 { f1: b0, f0: b1 } => Val::Enum(0, vec![b0.to_val(), b1.to_val()]), Self::V1 { f5: b0, f4: b1, f3: b2 } => Val::Enum(1, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V2 { f6: b0, f8: b1 } => Val::Enum(2, vec![b0.to_val(), b1.to_val()]), Self::V3 { f9: b0 } => Val::Enum(3, vec![b0.to_val()]), Self::V4 { f13: b0, f14: b1, f12: b2 } => Val::Enum(4, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V5 { f17: b0 } => Val::Enum(5, vec![b0.to_val()]), Self::V6 { f18: b0, f19: b1, f20: b2 } => Val::Enum(6, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V7 { f23: b0 } => Val::Enum(7, vec![b0.to_val()]), Self::V8 { f25: b0, f24: b1, f26: b2 } => Val::Enum(8, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V9 { f27: b0 } => Val::Enum(9, vec![b0.to_val()]), Self::V10 { f30: b0, f32: b1, f31: b2 } => Val::Enum(10, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V11 { f33: b0 } => Val::Enum(11, vec![b0.to_val()]), Self::V12 { f37: b0, f36: b1 } => Val::Enum(12, vec![b0.to_val(), b1.to_val()]), Self::V13 { f39: b0, f41: b1, f40: b2 } => Val::Enum(13, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V14 { f44: b0, f42: b1, f43: b2 } => Val::Enum(14, vec![b0.to_val(), b1.to_val(), b2.to_val()]), } }
}
fn mw_MEi16_2() -> f32 { <f32 as Subject>::from_val(&vcore::gen::sample::<f32>(1529)) }
fn mw_MEi16_11() -> Vec<u16> { <Vec<u16> as Subject>::from_val(&vcore::gen::sample::<Vec<u16>>(1538)) }
fn mw_MEi16_12() -> i16 { <i16 as Subject>::from_val(&vcore::gen::sample::<i16>(1539)) }
fn mw_MEi16_24() -> i16 { <i16 as Subject>::from_val(&vcore::gen::sample::<i16>(1551)) }
fn mw_MEi16_36() -> i16 { <i16 as Subject>::from_val(&vcore::gen::sample::<i16>(1563)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct MSOptionf64 {
    #[nserde(serialize_none_as_null, default_with = "mw_MSOptionf64_0")] pub f0: Option<f64>,
    #[nserde(skip)] #[nserde(default)] pub f1: Option<f64>,
    #[nserde(default = -0.5)] pub f2: Option<f64>,
    #[nserde(rename = "N3", skip)] pub f3: Option<f64>,
    #[nserde(serialize_none_as_null)] #[nserde(default)] pub f4: Option<f64>,
    #[nserde(default_with = "mw_MSOptionf64_5")] pub f5: Option<f64>,
    #[nserde(default = -0.5, rename = "Ren6")] pub f6: Option<f64>,
    #[nserde(serialize_none_as_null)] pub f7: Option<f64>,
    #[nserde(rename = "type8")] pub f8: Option<f64>,
    #[nserde(rename = "N9")] #[nserde(default)] pub f9: Option<f64>,
    #[nserde(rename = "some_10")] #[nserde(serialize_none_as_null)] pub f10: Option<f64>,
    #[nserde(default_with = "mw_MSOptionf64_11", rename = "_11")] pub f11: Option<f64>,
    #[nserde(skip, default, rename = "Ren12")] pub f12: Option<f64>,
    pub f13: Option<f64>,
    #[nserde(serialize_none_as_null)] #[nserde(default = -0.5)] #[nserde(rename = "type14")] pub f14: Option<f64>,
    #[nserde(skip)] pub f15: Option<f64>,
    #[nserde(default = -0.5)] #[nserde(skip)] #[nserde(rename = "some_16")] pub f16: Option<f64>,
    #[nserde(skip)] #[nserde(default = -0.5)] pub f17: Option<f64>,
    #[nserde(serialize_none_as_null)] #[nserde(default = -0.5)] pub f18: Option<f64>,
    #[nserde(skip)] #[nserde(default_with = "mw_MSOptionf64_19")] pub f19: Option<f64>,
    #[nserde(default)] pub f20: Option<f64>,
}
impl Subject for MSOptionf64  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MSOptionf64", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSOptionf64_0().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSOptionf64_5().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "type8", ron: "type8", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "N9", ron: "N9", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "some_10", ron: "some_10", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "_11", ron: "_11", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSOptionf64_11().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "Ren12", ron: "Ren12", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "f15", ron: "f15", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "some_16", ron: "some_16", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "f17", ron: "f17", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "f18", ron: "f18", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "f19", ron: "f19", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MSOptionf64_19().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "f20", ron: "f20", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MSOptionf64 { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MSOptionf64_0() -> Option<f64> { <Option<f64> as Subject>::from_val(&vcore::gen::sample::<Option<f64>>(1558)) }
fn mw_MSOptionf64_5() -> Option<f64> { <Option<f64> as Subject>::from_val(&vcore::gen::sample::<Option<f64>>(1563)) }
fn mw_MSOptionf64_11() -> Option<f64> { <Option<f64> as Subject>::from_val(&vcore::gen::sample::<Option<f64>>(1569)) }
fn mw_MSOptionf64_19() -> Option<f64> { <Option<f64> as Subject>::from_val(&vcore::gen::sample::<Option<f64>>(1577)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default)]
pub struct MDOptionf64 {
    pub f0: Option<f64>,
    #[nserde(serialize_none_as_null)] #[nserde(default_with = "mw_MDOptionf64_1")] pub f1: Option<f64>,
    #[nserde(serialize_none_as_null)] pub f2: Option<f64>,
    #[nserde(skip)] pub f3: Option<f64>,
    #[nserde(default)] pub f4: Option<f64>,
    #[nserde(rename = "_5")] #[nserde(skip)] pub f5: Option<f64>,
    #[nserde(rename = "Ren6", default = -0.5)] pub f6: Option<f64>,
    #[nserde(serialize_none_as_null, rename = "ключ_7", default = -0.5)] pub f7: Option<f64>,
    #[nserde(default = -0.5)] #[nserde(skip)] pub f8: Option<f64>,
    #[nserde(default)] #[nserde(rename = "N9")] pub f9: Option<f64>,
    #[nserde(rename = "some_10")] #[nserde(serialize_none_as_null)] pub f10: Option<f64>,
    #[nserde(default_with = "mw_MDOptionf64_11")] pub f11: Option<f64>,
    #[nserde(default = -0.5, serialize_none_as_null)] pub f12: Option<f64>,
    #[nserde(default)] #[nserde(rename = "ключ_13")] #[nserde(skip)] pub f13: Option<f64>,
    #[nserde(default_with = "mw_MDOptionf64_14")] #[nserde(rename = "type14")] pub f14: Option<f64>,
    #[nserde(rename = "N15", default = -0.5, skip)] pub f15: Option<f64>,
    #[nserde(skip)] #[nserde(default_with = "mw_MDOptionf64_16")] pub f16: Option<f64>,
    #[nserde(default = -0.5)] pub f17: Option<f64>,
    #[nserde(default, skip)] pub f18: Option<f64>,
    #[nserde(rename = "ключ_19")] pub f19: Option<f64>,
    #[nserde(serialize_none_as_null)] #[nserde(default)] pub f20: Option<f64>,
}
impl Subject for MDOptionf64  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MDOptionf64", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDOptionf64_1().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "f3", ron: "f3", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "_5", ron: "_5", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "ключ_7", ron: "ключ_7", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "N9", ron: "N9", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "some_10", ron: "some_10", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDOptionf64_11().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "ключ_13", ron: "ключ_13", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDOptionf64_14().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "N15", ron: "N15", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "f16", ron: "f16", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MDOptionf64_16().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "f17", ron: "f17", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "f18", ron: "f18", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "ключ_19", ron: "ключ_19", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "f20", ron: "f20", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MDOptionf64 { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MDOptionf64_1() -> Option<f64> { <Option<f64> as Subject>::from_val(&vcore::gen::sample::<Option<f64>>(1590)) }
fn mw_MDOptionf64_11() -> Option<f64> { <Option<f64> as Subject>::from_val(&vcore::gen::sample::<Option<f64>>(1600)) }
fn mw_MDOptionf64_14() -> Option<f64> { <Option<f64> as Subject>::from_val(&vcore::gen::sample::<Option<f64>>(1603)) }
fn mw_MDOptionf64_16() -> Option<f64> { <Option<f64> as Subject>::from_val(&vcore::gen::sample::<Option<f64>>(1605)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct MNOptionf64 {
    pub f0: Option<f64>,
    #[nserde(default)] #[nserde(serialize_none_as_null)] pub f1: Option<f64>,
    #[nserde(rename = "type2")] #[nserde(skip)] pub f2: Option<f64>,
    #[nserde(rename = "N3", default = -0.5)] pub f3: Option<f64>,
    #[nserde(default_with = "mw_MNOptionf64_4")] #[nserde(rename = "some_4")] pub f4: Option<f64>,
    #[nserde(skip)] #[nserde(default = -0.5)] pub f5: Option<f64>,
    #[nserde(skip, rename = "Ren6", default = -0.5)] pub f6: Option<f64>,
    #[nserde(skip)] pub f7: Option<f64>,
    #[nserde(rename = "type8")] pub f8: Option<f64>,
    #[nserde(default = -0.5, serialize_none_as_null)] pub f9: Option<f64>,
    #[nserde(default)] #[nserde(skip)] pub f10: Option<f64>,
    #[nserde(serialize_none_as_null, rename = "_11", default = -0.5)] pub f11: Option<f64>,
    #[nserde(skip, default, rename = "Ren12")] pub f12: Option<f64>,
    #[nserde(default_with = "mw_MNOptionf64_13", skip)] pub f13: Option<f64>,
    #[nserde(serialize_none_as_null)] #[nserde(rename = "type14")] pub f14: Option<f64>,
    #[nserde(serialize_none_as_null)] pub f15: Option<f64>,
    #[nserde(default_with = "mw_MNOptionf64_16")] pub f16: Option<f64>,
    #[nserde(rename = "_17", default)] pub f17: Option<f64>,
    #[nserde(default = -0.5)] pub f18: Option<f64>,
    #[nserde(default_with = "mw_MNOptionf64_19")] #[nserde(serialize_none_as_null)] pub f19: Option<f64>,
    #[nserde(default)] pub f20: Option<f64>,
}
impl Subject for MNOptionf64  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MNOptionf64", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "type2", ron: "type2", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "some_4", ron: "some_4", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MNOptionf64_4().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "type8", ron: "type8", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "_11", ron: "_11", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "Ren12", ron: "Ren12", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MNOptionf64_13().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "f15", ron: "f15", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "f16", ron: "f16", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MNOptionf64_16().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "_17", ron: "_17", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "f18", ron: "f18", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "f19", ron: "f19", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MNOptionf64_19().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "f20", ron: "f20", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MNOptionf64 { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MNOptionf64_4() -> Option<f64> { <Option<f64> as Subject>::from_val(&vcore::gen::sample::<Option<f64>>(1624)) }
fn mw_MNOptionf64_13() -> Option<f64> { <Option<f64> as Subject>::from_val(&vcore::gen::sample::<Option<f64>>(1633)) }
fn mw_MNOptionf64_16() -> Option<f64> { <Option<f64> as Subject>::from_val(&vcore::gen::sample::<Option<f64>>(1636)) }
fn mw_MNOptionf64_19() -> Option<f64> { <Option<f64> as Subject>::from_val(&vcore::gen::sample::<Option<f64>>(1639)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default, serialize_none_as_null)]
pub struct MBOptionf64 {
    #[nserde(rename = "Ren0")] pub f0: Option<f64>,
    #[nserde(serialize_none_as_null)] #[nserde(rename = "ключ_1")] pub f1: Option<f64>,
    #[nserde(rename = "type2")] #[nserde(skip)] #[nserde(default)] pub f2: Option<f64>,
    #[nserde(rename = "N3", default)] pub f3: Option<f64>,
    #[nserde(skip)] #[nserde(default = -0.5)] #[nserde(rename = "some_4")] pub f4: Option<f64>,
    #[nserde(skip)] pub f5: Option<f64>,
    #[nserde(skip)] #[nserde(default_with = "mw_MBOptionf64_6")] pub f6: Option<f64>,
    #[nserde(serialize_none_as_null, default)] pub f7: Option<f64>,
    #[nserde(rename = "type8")] #[nserde(default_with = "mw_MBOptionf64_8")] pub f8: Option<f64>,
    #[nserde(default_with = "mw_MBOptionf64_9", serialize_none_as_null)] pub f9: Option<f64>,
    pub f10: Option<f64>,
    #[nserde(rename = "_11", skip)] pub f11: Option<f64>,
    #[nserde(serialize_none_as_null)] pub f12: Option<f64>,
    #[nserde(default = -0.5)] pub f13: Option<f64>,
    #[nserde(default = -0.5)] #[nserde(rename = "type14")] pub f14: Option<f64>,
    #[nserde(default)] pub f15: Option<f64>,
    #[nserde(default)] #[nserde(skip)] pub f16: Option<f64>,
    #[nserde(default = -0.5, serialize_none_as_null, rename = "_17")] pub f17: Option<f64>,
    #[nserde(default_with = "mw_MBOptionf64_18")] pub f18: Option<f64>,
    #[nserde(default = -0.5)] #[nserde(serialize_none_as_null)] pub f19: Option<f64>,
    #[nserde(skip, default = -0.5)] pub f20: Option<f64>,
}
impl Subject for MBOptionf64  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MBOptionf64", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "Ren0", ron: "Ren0", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "type2", ron: "type2", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "some_4", ron: "some_4", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MBOptionf64_6().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "type8", ron: "type8", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MBOptionf64_8().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MBOptionf64_9().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "_11", ron: "_11", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "f15", ron: "f15", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "f16", ron: "f16", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "_17", ron: "_17", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "f18", ron: "f18", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MBOptionf64_18().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "f19", ron: "f19", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "f20", ron: "f20", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MBOptionf64 { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MBOptionf64_6() -> Option<f64> { <Option<f64> as Subject>::from_val(&vcore::gen::sample::<Option<f64>>(1657)) }
fn mw_MBOptionf64_8() -> Option<f64> { <Option<f64> as Subject>::from_val(&vcore::gen::sample::<Option<f64>>(1659)) }
fn mw_MBOptionf64_9() -> Option<f64> { <Option<f64> as Subject>::from_val(&vcore::gen::sample::<Option<f64>>(1660)) }
fn mw_MBOptionf64_18() -> Option<f64> { <Option<f64> as Subject>::from_val(&vcore::gen::sample::<Option<f64>>(1669)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum MEOptionf64 {
    V0 { #[nserde(rename = "type2", default)] f2: String, f1: String, f0: Option<f64> },
    V1 { f4: Option<MSmall> },
    V2 { f7: (u8, String) },
    V3 { #[nserde(skip)] #[nserde(rename = "_11")] f11: u8, f10: u8, #[nserde(default = -0.5)] f9: Option<f64> },
    V4 { f13: i16, #[nserde(default_with = "mw_MEOptionf64_12")] f12: Option<f64>, #[nserde(rename = "type14")] #[nserde(default_with = "mw_MEOptionf64_14")] f14: i16 },
    V5 { #[nserde(skip)] f15: Option<f64>, #[nserde(skip)] #[nserde(default = "mdflt()")] f17: BTreeMap<String, u8>, f16: BTreeMap<String, u8> },
    V6 { #[nserde(rename = "type20")] f20: MKind, #[nserde(default)] #[nserde(rename = "Ren18")] f18: Option<f64>, f19: MKind },
    V7 { #[nserde(rename = "N21", default = -0.5)] f21: Option<f64>, #[nserde(rename = "_23", default = "true", skip)] f23: bool, f22: bool },
    V8 { f25: Option<u8> },
    V9 { #[nserde(skip)] f29: Option<f64> },
    V10 { #[nserde(default_with = "mw_MEOptionf64_32", rename = "type32")] f32: (u8, String), #[nserde(default)] #[nserde(skip)] f30: Option<f64>, f31: (u8, String) },
    V11 { f34: Vec<String> },
    V12 { f37: bool },
    V13 { #[nserde(default, rename = "N39", skip)] f39: Option<f64>, f40: Option<Vec<Option<u8>>>, #[nserde(skip)] #[nserde(default = "vec![None, Some(1)]")] f41: Option<Vec<Option<u8>>> },
    V14 { f43: f32, #[nserde(default = 1.5)] f44: f32, #[nserde(rename = "Ren42")] #[nserde(default = -0.5)] #[nserde(skip)] f42: Option<f64> },
    V15 { f46: f32, #[nserde(rename = "_47")] #[nserde(default)] #[nserde(skip)] f47: f32, #[nserde(serialize_none_as_null)] f45: Option<f64> },
    V16 { #[nserde(serialize_none_as_null)] #[nserde(rename = "Ren48")] f48: Option<f64>, #[nserde(skip)] f50: Option<Vec<Option<u8>>> },
    V17 { #[nserde(serialize_none_as_null, default)] f51: Option<f64>, #[nserde(skip)] f53: Vec<String>, f52: Vec<String> },
    V18 { f56: Option<MKind>, #[nserde(serialize_none_as_null, default = -0.5)] f54: Option<f64>, f55: Option<MKind> },
    V19 { f58: i64 },
    V20 { #[nserde(rename = "Ren60")] #[nserde(serialize_none_as_null)] #[nserde(default = -0.5)] f60: Option<f64>, f61: u8, #[nserde(skip, default = 5)] f62: u8 },
}
impl Subject for MEOptionf64 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "MEOptionf64", variants: &[VariantDef { name: "V0", json: "V0", kind: Kind::Named, fields: &[FieldDef { name: "f2", json: "type2", ron: "type2", ty: <String as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f1", json: "f1", ron: "f1", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }] }, VariantDef { name: "V1", json: "V1", kind: Kind::Named, fields: &[FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }] }, VariantDef { name: "V2", json: "V2", kind: Kind::Named, fields: &[FieldDef { name: "f7", json: "f7", ron: "f7", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }] }, VariantDef { name: "V3", json: "V3", kind: Kind::Named, fields: &[FieldDef { name: "f11", json: "_11", ron: "_11", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f10", json: "f10", ron: "f10", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f9", json: "f9", ron: "f9", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }] }, VariantDef { name: "V4", json: "V4", kind: Kind::Named, fields: &[FieldDef { name: "f13", json: "f13", ron: "f13", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }, FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionf64_12().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f14", json: "type14", ron: "type14", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionf64_14().to_val()), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }] }, VariantDef { name: "V5", json: "V5", kind: Kind::Named, fields: &[FieldDef { name: "f15", json: "f15", ron: "f15", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f17", json: "f17", ron: "f17", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: BTreeMap<String, u8> = mdflt(); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }, FieldDef { name: "f16", json: "f16", ron: "f16", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }] }, VariantDef { name: "V6", json: "V6", kind: Kind::Named, fields: &[FieldDef { name: "f20", json: "type20", ron: "type20", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }, FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f19", json: "f19", ron: "f19", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }] }, VariantDef { name: "V7", json: "V7", kind: Kind::Named, fields: &[FieldDef { name: "f21", json: "N21", ron: "N21", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f23", json: "_23", ron: "_23", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: bool = true; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f22", json: "f22", ron: "f22", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] }, VariantDef { name: "V8", json: "V8", kind: Kind::Named, fields: &[FieldDef { name: "f25", json: "f25", ron: "f25", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] }, VariantDef { name: "V9", json: "V9", kind: Kind::Named, fields: &[FieldDef { name: "f29", json: "f29", ron: "f29", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }] }, VariantDef { name: "V10", json: "V10", kind: Kind::Named, fields: &[FieldDef { name: "f32", json: "type32", ron: "type32", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionf64_32().to_val()), is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }, FieldDef { name: "f30", json: "f30", ron: "f30", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f31", json: "f31", ron: "f31", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }] }, VariantDef { name: "V11", json: "V11", kind: Kind::Named, fields: &[FieldDef { name: "f34", json: "f34", ron: "f34", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }] }, VariantDef { name: "V12", json: "V12", kind: Kind::Named, fields: &[FieldDef { name: "f37", json: "f37", ron: "f37", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] }, VariantDef { name: "V13", json: "V13", kind: Kind::Named, fields: &[FieldDef { name: "f39", json: "N39", ron: "N39", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f40", json: "f40", ron: "f40", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f41", json: "f41", ron: "f41", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }] }, VariantDef { name: "V14", json: "V14", kind: Kind::Named, fields: &[FieldDef { name: "f43", json: "f43", ron: "f43", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }, FieldDef { name: "f44", json: "f44", ron: "f44", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: f32 = 1.5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }, FieldDef { name: "f42", json: "Ren42", ron: "Ren42", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }] }, VariantDef { name: "V15", json: "V15", kind: Kind::Named, fields: &[FieldDef { name: "f46", json: "f46", ron: "f46", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }, FieldDef { name: "f47", json: "_47", ron: "_47", ty: <f32 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }, FieldDef { name: "f45", json: "f45", ron: "f45", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }] }, VariantDef { name: "V16", json: "V16", kind: Kind::Named, fields: &[FieldDef { name: "f48", json: "Ren48", ron: "Ren48", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f50", json: "f50", ron: "f50", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }] }, VariantDef { name: "V17", json: "V17", kind: Kind::Named, fields: &[FieldDef { name: "f51", json: "f51", ron: "f51", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f53", json: "f53", ron: "f53", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f52", json: "f52", ron: "f52", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }] }, VariantDef { name: "V18", json: "V18", kind: Kind::Named, fields: &[FieldDef { name: "f56", json: "f56", ron: "f56", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f54", json: "f54", ron: "f54", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f55", json: "f55", ron: "f55", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }] }, VariantDef { name: "V19", json: "V19", kind: Kind::Named, fields: &[FieldDef { name: "f58", json: "f58", ron: "f58", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }] }, VariantDef { name: "V20", json: "V20", kind: Kind::Named, fields: &[FieldDef { name: "f60", json: "Ren60", ron: "Ren60", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f61", json: "f61", ron: "f61", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f62", json: "f62", ron: "f62", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: u8 = 5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::V0 { f2: Subject::from_val(&x_[0]), f1: Subject::from_val(&x_[1]), f0: Subject::from_val(&x_[2]) }, 1 => Self::V1 { f4: Subject::from_val(&x_[0]) }, 2 => Self::V2 { f7: Subject::from_val(&x_[0]) }, 3 => Self::V3 { f11: Subject::from_val(&x_[0]), f10: Subject::from_val(&x_[1]), f9: Subject::from_val(&x_[2]) }, 4 => Self::V4 { f13: Subject::from_val(&x_[0]), f12: Subject::from_val(&x_[1]), f14: Subject::from_val(&x_[2]) }, 5 => Self::V5 { f15: Subject::from_val(&x_[0]), f17: Subject::from_val(&x_[1]), f16: Subject::from_val(&x_[2]) }, 6 => Self::V6 { f20: Subject::from_val(&x_[0]), f18: Subject::from_val(&x_[1]), f19: Subject::from_val(&x_[2]) }, 7 => Self::V7 { f21: Subject::from_val(&x_[0]), f23: Subject::from_val(&x_[1]), f22: Subject::from_val(&x_[2]) }, 8 => Self::V8 { f25: Subject::from_val(&x_[0]) }, 9 => Self::V9 { f29: Subject::from_val(&x_[0]) }, 10 => Self::V10 { f32: Subject::from_val(&x_[0]), f30: Subject::from_val(&x_[1]), f31: Subject::from_val(&x_[2]) }, 11 => Self::V11 { f34: Subject::from_val(&x_[0]) }, 12 => Self::V12 { f37: Subject::from_val(&x_[0]) }, 13 => Self::V13 { f39: Subject::from_val(&x_[0]), f40: Subject::from_val(&x_[1]), f41: Subject::from_val(&x_[2]) }, 14 => Self::V14 { f43: Subject::from_val(&x_[0]), f44: Subject::from_val(&x_[1]), f42: Subject::from_val(&x_[2]) }, 15 => Self::V15 { f46: Subject::from_val(&x_[0]), f47: Subject::from_val(&x_[1]), f45: Subject::from_val(&x_[2]) }, 16 => Self::V16 { f48: Subject::from_val(&x_[0]), f50: Subject::from_val(&x_[1]) }, 17 => Self::V17 { f51: Subject::from_val(&x_[0]), f53: Subject::from_val(&x_[1]), f52: Subject::from_val(&x_[2]) }, 18 => Self::V18 { f56: Subject::from_val(&x_[0]), f54: Subject::from_val(&x_[1]), f55: Subject::from_val(&x_[2]) }, 19 => Self::V19 { f58: Subject::from_val(&x_[0]) }, 20 => Self::V20 { f60: Subject::from_val(&x_[0]), f61: Subject::from_val(&x_[1]), f62: Subject::from_val(&x_[2]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::V0 { f2: b0, f1: b1, f0: b2 } => Val::Enum(0, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V1 { f4: b0 } => Val::Enum(1, vec![b0.to_val()]), Self::V2 { f7: b0 } => Val::Enum(2, vec![b0.to_val()]), Self::V3 { f11: b0, f10: b1, f9: b2 } => Val::Enum(3, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V4 { f13: b0, f12: b1, f14: b2 } => Val::Enum(4, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V5 { f15: b0, f17: b1, f16: b2 } => Val::Enum(5, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V6 { f20: b0, f18: b1, f19: b2 } => Val::Enum(6, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V7 { f21: b0, f23: b1, f22: b2 } => Val::Enum(7, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V8 { f25: b0 } => Val::Enum(8, vec![b0.to_val()]), Self::V9 { f29: b0 } => Val::Enum(9, vec![b0.to_val()]), Self::V10 { f32: b0, f30: b1, f31: b2 } => Val::Enum(10, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V11 { f34: b0 } => Val::Enum(11, vec![b0.to_val()]), Self::V12 { f37: b0 } => Val::Enum(12, vec![b0.to_val()]), Self::V13 { f39: b0, f40: b1, f41: b2 } => Val::Enum(13, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V14 { f43: b0, f44: b1, f42: b2 } => Val::Enum(14, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V15 { f46: b0, f47: b1, f45: b2 } => Val::Enum(15, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V16 { f48: b0, f50: b1 } => Val::Enum(16, vec![b0.to_val(), b1.to_val()]), Self::V17 { f51: b0, f53: b1, f52: b2 } => Val::Enum(17, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V18 { f56: b0, f54: b1, f55: b2 } => Val::Enum(18, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V19 { f58: b0 } => Val::Enum(19, vec![b0.to_val()]), Self::V20 { f60: b0, f61: b1, f62: b2 } => Val::Enum(20, vec![b0.to_val(), b1.to_val(), b2.to_val()]), } }
}
fn mw_MEOptionf64_12() -> Option<f64> { <Option<f64> as Subject>::from_val(&vcore::gen::sample::<Option<f64>>(1694)) }
fn mw_MEOptionf64_14() -> i16 { <i16 as Subject>::from_val(&vcore::gen::sample::<i16>(1696)) }
fn mw_MEOptionf64_24() -> Option<f64> { <Option<f64> as Subject>::from_val(&vcore::gen::sample::<Option<f64>>(1706)) }
fn mw_MEOptionf64_32() -> (u8, String) { <(u8, String) as Subject>::from_val(&vcore::gen::sample::<(u8, String)>(1714)) }
fn mw_MEOptionf64_36() -> Option<f64> { <Option<f64> as Subject>::from_val(&vcore::gen::sample::<Option<f64>>(1718)) }
fn mw_MEOptionf64_57() -> Option<f64> { <Option<f64> as Subject>::from_val(&vcore::gen::sample::<Option<f64>>(1739)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct MSOptionbool {
    #[nserde(default)] #[nserde(rename = "Ren0")] #[nserde(skip)] pub f0: Option<bool>,
    #[nserde(default_with = "mw_MSOptionbool_1")] pub f1: Option<bool>,
    #[nserde(serialize_none_as_null)] #[nserde(default_with = "mw_MSOptionbool_2")] pub f2: Option<bool>,
    pub f3: Option<bool>,
    #[nserde(serialize_none_as_null)] pub f4: Option<bool>,
    #[nserde(rename = "_5")] #[nserde(skip)] #[nserde(default = true)] pub f5: Option<bool>,
    #[nserde(serialize_none_as_null)] #[nserde(default)] pub f6: Option<bool>,
    #[nserde(default = true, rename = "ключ_7", serialize_none_as_null)] pub f7: Option<bool>,
    #[nserde(skip, default_with = "mw_MSOptionbool_8")] pub f8: Option<bool>,
    #[nserde(skip)] #[nserde(default)] pub f9: Option<bool>,
    #[nserde(rename = "some_10")] pub f10: Option<bool>,
    #[nserde(default)] pub f11: Option<bool>,
    #[nserde(rename = "Ren12", default = true)] pub f12: Option<bool>,
    #[nserde(default = true)] pub f13: Option<bool>,
    #[nserde(default = true, skip)] pub f14: Option<bool>,
    #[nserde(rename = "N15")] #[nserde(default)] pub f15: Option<bool>,
    #[nserde(rename = "some_16", skip)] pub f16: Option<bool>,
    #[nserde(skip)] pub f17: Option<bool>,
    #[nserde(default = true, serialize_none_as_null)] pub f18: Option<bool>,
    #[nserde(default_with = "mw_MSOptionbool_19")] #[nserde(rename = "ключ_19")] pub f19: Option<bool>,
    #[nserde(serialize_none_as_null, rename = "type20")] pub f20: Option<bool>,
}
impl Subject for MSOptionbool  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MSOptionbool", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "Ren0", ron: "Ren0", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSOptionbool_1().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSOptionbool_2().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "f3", ron: "f3", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "_5", ron: "_5", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "ключ_7", ron: "ключ_7", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MSOptionbool_8().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "some_10", ron: "some_10", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "Ren12", ron: "Ren12", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "N15", ron: "N15", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "some_16", ron: "some_16", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "f17", ron: "f17", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "f18", ron: "f18", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "ключ_19", ron: "ключ_19", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSOptionbool_19().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "type20", ron: "type20", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MSOptionbool { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MSOptionbool_1() -> Option<bool> { <Option<bool> as Subject>::from_val(&vcore::gen::sample::<Option<bool>>(1714)) }
fn mw_MSOptionbool_2() -> Option<bool> { <Option<bool> as Subject>::from_val(&vcore::gen::sample::<Option<bool>>(1715)) }
fn mw_MSOptionbool_8() -> Option<bool> { <Option<bool> as Subject>::from_val(&vcore::gen::sample::<Option<bool>>(1721)) }
fn mw_MSOptionbool_19() -> Option<bool> { <Option<bool> as Subject>::from_val(&vcore::gen::sample::<Option<bool>>(1732)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default)]
pub struct MDOptionbool {
    #[nserde(skip, default = true)] pub f0: Option<bool>,
    #[nserde(rename = "ключ_1", serialize_none_as_null)] pub f1: Option<bool>,
    #[nserde(rename = "type2")] #[nserde(skip)] #[nserde(default)] pub f2: Option<bool>,
    #[nserde(default)] #[nserde(rename = "N3")] pub f3: Option<bool>,
    #[nserde(rename = "some_4")] pub f4: Option<bool>,
    pub f5: Option<bool>,
    #[nserde(rename = "Ren6")] #[nserde(skip)] #[nserde(default = true)] pub f6: Option<bool>,
    #[nserde(default, serialize_none_as_null)] pub f7: Option<bool>,
    #[nserde(serialize_none_as_null)] pub f8: Option<bool>,
    #[nserde(default_with = "mw_MDOptionbool_9", skip)] pub f9: Option<bool>,
    #[nserde(default = true)] pub f10: Option<bool>,
    #[nserde(default)] pub f11: Option<bool>,
    #[nserde(skip)] pub f12: Option<bool>,
    #[nserde(rename = "ключ_13")] #[nserde(default = true)] #[nserde(serialize_none_as_null)] pub f13: Option<bool>,
    #[nserde(serialize_none_as_null)] #[nserde(default_with = "mw_MDOptionbool_14")] pub f14: Option<bool>,
    #[nserde(default)] #[nserde(skip)] pub f15: Option<bool>,
    #[nserde(default = true, rename = "some_16")] pub f16: Option<bool>,
    #[nserde(default = true, serialize_none_as_null)] pub f17: Option<bool>,
    #[nserde(default_with = "mw_MDOptionbool_18")] pub f18: Option<bool>,
    #[nserde(rename = "ключ_19", skip)] pub f19: Option<bool>,
    #[nserde(default_with = "mw_MDOptionbool_20", rename = "type20")] pub f20: Option<bool>,
}
impl Subject for MDOptionbool  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MDOptionbool", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "type2", ron: "type2", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "some_4", ron: "some_4", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MDOptionbool_9().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "ключ_13", ron: "ключ_13", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDOptionbool_14().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "f15", ron: "f15", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "some_16", ron: "some_16", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "f17", ron: "f17", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "f18", ron: "f18", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDOptionbool_18().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "ключ_19", ron: "ключ_19", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "type20", ron: "type20", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDOptionbool_20().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MDOptionbool { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MDOptionbool_9() -> Option<bool> { <Option<bool> as Subject>::from_val(&vcore::gen::sample::<Option<bool>>(1753)) }
fn mw_MDOptionbool_14() -> Option<bool> { <Option<bool> as Subject>::from_val(&vcore::gen::sample::<Option<bool>>(1758)) }
fn mw_MDOptionbool_18() -> Option<bool> { <Option<bool> as Subject>::from_val(&vcore::gen::sample::<Option<bool>>(1762)) }
fn mw_MDOptionbool_20() -> Option<bool> { <Option<bool> as Subject>::from_val(&vcore::gen::sample::<Option<bool>>(1764)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct MNOptionbool {
    #[nserde(serialize_none_as_null)] pub f0: Option<bool>,
    #[nserde(skip, default_with = "mw_MNOptionbool_1")] pub f1: Option<bool>,
    pub f2: Option<bool>,
    #[nserde(rename = "N3", default = true)] pub f3: Option<bool>,
    #[nserde(skip)] pub f4: Option<bool>,
    #[nserde(default = true, serialize_none_as_null)] pub f5: Option<bool>,
    #[nserde(skip)] #[nserde(rename = "Ren6")] pub f6: Option<bool>,
    #[nserde(default_with = "mw_MNOptionbool_7")] pub f7: Option<bool>,
    #[nserde(default)] pub f8: Option<bool>,
    #[nserde(serialize_none_as_null)] #[nserde(default)] pub f9: Option<bool>,
    #[nserde(serialize_none_as_null, default_with = "mw_MNOptionbool_10")] pub f10: Option<bool>,
    #[nserde(default, rename = "_11")] pub f11: Option<bool>,
    #[nserde(rename = "Ren12")] pub f12: Option<bool>,
    #[nserde(default = true, skip)] pub f13: Option<bool>,
    #[nserde(rename = "type14", serialize_none_as_null)] pub f14: Option<bool>,
    #[nserde(rename = "N15", default_with = "mw_MNOptionbool_15")] pub f15: Option<bool>,
    #[nserde(default, skip)] pub f16: Option<bool>,
    #[nserde(skip, rename = "_17", default)] pub f17: Option<bool>,
    #[nserde(skip, default = true, rename = "Ren18")] pub f18: Option<bool>,
    #[nserde(default = true)] pub f19: Option<bool>,
    #[nserde(serialize_none_as_null, default = true, rename = "type20")] pub f20: Option<bool>,
}
impl Subject for MNOptionbool  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MNOptionbool", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MNOptionbool_1().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MNOptionbool_7().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MNOptionbool_10().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "_11", ron: "_11", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "Ren12", ron: "Ren12", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "N15", ron: "N15", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MNOptionbool_15().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "f16", ron: "f16", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "_17", ron: "_17", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "f19", ron: "f19", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "type20", ron: "type20", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MNOptionbool { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MNOptionbool_1() -> Option<bool> { <Option<bool> as Subject>::from_val(&vcore::gen::sample::<Option<bool>>(1776)) }
fn mw_MNOptionbool_7() -> Option<bool> { <Option<bool> as Subject>::from_val(&vcore::gen::sample::<Option<bool>>(1782)) }
fn mw_MNOptionbool_10() -> Option<bool> { <Option<bool> as Subject>::from_val(&vcore::gen::sample::<Option<bool>>(1785)) }
fn mw_MNOptionbool_15() -> Option<bool> { <Option<bool> as Subject>::from_val(&vcore::gen::sample::<Option<bool>>(1790)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default, serialize_none_as_null)]
pub struct MBOptionbool {
    #[nserde(serialize_none_as_null)] pub f0: Option<bool>,
    #[nserde(skip)] #[nserde(rename = "ключ_1")] pub f1: Option<bool>,
    #[nserde(serialize_none_as_null, default_with = "mw_MBOptionbool_2")] pub f2: Option<bool>,
    #[nserde(serialize_none_as_null)] #[nserde(default)] pub f3: Option<bool>,
    #[nserde(default = true)] pub f4: Option<bool>,
    #[nserde(default)] pub f5: Option<bool>,
    #[nserde(default = true, rename = "Ren6")] pub f6: Option<bool>,
    #[nserde(skip, default = true, rename = "ключ_7")] pub f7: Option<bool>,
    #[nserde(default_with = "mw_MBOptionbool_8")] pub f8: Option<bool>,
    #[nserde(skip)] pub f9: Option<bool>,
    #[nserde(default = true)] #[nserde(skip)] pub f10: Option<bool>,
    #[nserde(default, skip)] pub f11: Option<bool>,
    #[nserde(default, rename = "Ren12", skip)] pub f12: Option<bool>,
    #[nserde(rename = "ключ_13")] #[nserde(default)] pub f13: Option<bool>,
    #[nserde(serialize_none_as_null)] #[nserde(rename = "type14")] pub f14: Option<bool>,
    pub f15: Option<bool>,
    #[nserde(rename = "some_16")] pub f16: Option<bool>,
    #[nserde(default = true, serialize_none_as_null)] pub f17: Option<bool>,
    #[nserde(default_with = "mw_MBOptionbool_18", skip)] pub f18: Option<bool>,
    #[nserde(serialize_none_as_null, rename = "ключ_19", default = true)] pub f19: Option<bool>,
    #[nserde(rename = "type20")] #[nserde(default_with = "mw_MBOptionbool_20")] pub f20: Option<bool>,
}
impl Subject for MBOptionbool  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MBOptionbool", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MBOptionbool_2().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "f3", ron: "f3", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "ключ_7", ron: "ключ_7", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MBOptionbool_8().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "Ren12", ron: "Ren12", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "ключ_13", ron: "ключ_13", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "f15", ron: "f15", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "some_16", ron: "some_16", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "f17", ron: "f17", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "f18", ron: "f18", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MBOptionbool_18().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "ключ_19", ron: "ключ_19", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "type20", ron: "type20", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MBOptionbool_20().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MBOptionbool { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MBOptionbool_2() -> Option<bool> { <Option<bool> as Subject>::from_val(&vcore::gen::sample::<Option<bool>>(1808)) }
fn mw_MBOptionbool_8() -> Option<bool> { <Option<bool> as Subject>::from_val(&vcore::gen::sample::<Option<bool>>(1814)) }
fn mw_MBOptionbool_18() -> Option<bool> { <Option<bool> as Subject>::from_val(&vcore::gen::sample::<Option<bool>>(1824)) }
fn mw_MBOptionbool_20() -> Option<bool> { <Option<bool> as Subject>::from_val(&vcore::gen::sample::<Option<bool>>(1826)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum MEOptionbool {
    V0 { f0: Option<bool>, #[nserde(default_with = "mw_MEOptionbool_2")] f2: Option<Vec<Option<u8>>>, f1: Option<Vec<Option<u8>>> },
    V1 { #[nserde(skip, default)] f5: Option<MKind>, #[nserde(rename = "N3")] f3: Option<bool>, f4: Option<MKind> },
    V2 { f8: (u8, String), f7: (u8, String), #[nserde(default)] f6: Option<bool> },
    V3 { f10: String },
    V4 { #[nserde(default_with = "mw_MEOptionbool_14")] f14: Option<Vec<Option<u8>>>, #[nserde(default_with = "mw_MEOptionbool_12")] f12: Option<bool>, f13: Option<Vec<Option<u8>>> },
    V5 { #[nserde(skip)] f15: Option<bool>, #[nserde(default)] f17: Option<bool>, f16: Option<bool> },
    V6 { f19: Option<f64>, #[nserde(rename = "Ren18", default)] f18: Option<bool>, #[nserde(default)] f20: Option<f64> },
    V7 { #[nserde(rename = "N21")] #[nserde(default = true)] f21: Option<bool>, f22: Option<String>, #[nserde(skip, default = "x")] f23: Option<String> },
    V8 { #[nserde(default = "true")] f26: bool, f25: bool, #[nserde(default_with = "mw_MEOptionbool_24")] #[nserde(rename = "Ren24")] f24: Option<bool> },
    V9 { #[nserde(rename = "N27")] #[nserde(skip)] f27: Option<bool> },
    V10 { #[nserde(skip)] #[nserde(default)] f30: Option<bool>, #[nserde(skip)] f32: Option<String>, f31: Option<String> },
    V11 { #[nserde(skip)] #[nserde(default)] f35: MKind },
    V12 { #[nserde(skip, default_with = "mw_MEOptionbool_36")] f36: Option<bool>, f37: Option<Vec<String>>, #[nserde(default = r#"vec![String::from("a\n")]"#)] #[nserde(rename = "type38")] f38: Option<Vec<String>> },
    V13 { #[nserde(skip)] #[nserde(default)] #[nserde(rename = "N39")] f39: Option<bool> },
    V14 { #[nserde(rename = "Ren42", skip, default = true)] f42: Option<bool>, #[nserde(rename = "type44", default)] f44: Vec<String>, f43: Vec<String> },
    V15 { #[nserde(serialize_none_as_null)] f45: Option<bool>, #[nserde(default = "vec![None, Some(1)]")] #[nserde(rename = "_47")] f47: Option<Vec<Option<u8>>>, f46: Option<Vec<Option<u8>>> },
    V16 { #[nserde(rename = "type50", default_with = "mw_MEOptionbool_50")] f50: f32 },
    V17 { #[nserde(serialize_none_as_null, default)] f51: Option<bool>, f52: i64, #[nserde(default = "-5", rename = "_53")] f53: i64 },
    V18 { f55: Option<Vec<Option<u8>>>, #[nserde(default, skip)] f56: Option<Vec<Option<u8>>>, #[nserde(serialize_none_as_null)] #[nserde(default = true)] f54: Option<bool> },
    V19 { #[nserde(default = "-5")] #[nserde(rename = "_59")] #[nserde(skip)] f59: i64, f58: i64, #[nserde(default_with = "mw_MEOptionbool_57", serialize_none_as_null)] f57: Option<bool> },
    V20 { #[nserde(skip)] f62: String, f61: String, #[nserde(serialize_none_as_null)] #[nserde(rename = "Ren60")] #[nserde(default = true)] f60: Option<bool> },
}
impl Subject for MEOptionbool {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "MEOptionbool", variants: &[VariantDef { name: "V0", json: "V0", kind: Kind::Named, fields: &[FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }, FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionbool_2().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }] }, VariantDef { name: "V1", json: "V1", kind: Kind::Named, fields: &[FieldDef { name: "f5", json: "f5", ron: "f5", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }, FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }] }, VariantDef { name: "V2", json: "V2", kind: Kind::Named, fields: &[FieldDef { name: "f8", json: "f8", ron: "f8", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }, FieldDef { name: "f7", json: "f7", ron: "f7", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }, FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }] }, VariantDef { name: "V3", json: "V3", kind: Kind::Named, fields: &[FieldDef { name: "f10", json: "f10", ron: "f10", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V4", json: "V4", kind: Kind::Named, fields: &[FieldDef { name: "f14", json: "f14", ron: "f14", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionbool_14().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionbool_12().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }, FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }] }, VariantDef { name: "V5", json: "V5", kind: Kind::Named, fields: &[FieldDef { name: "f15", json: "f15", ron: "f15", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }, FieldDef { name: "f17", json: "f17", ron: "f17", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }, FieldDef { name: "f16", json: "f16", ron: "f16", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }] }, VariantDef { name: "V6", json: "V6", kind: Kind::Named, fields: &[FieldDef { name: "f19", json: "f19", ron: "f19", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }, FieldDef { name: "f20", json: "f20", ron: "f20", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }] }, VariantDef { name: "V7", json: "V7", kind: Kind::Named, fields: &[FieldDef { name: "f21", json: "N21", ron: "N21", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }, FieldDef { name: "f22", json: "f22", ron: "f22", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f23", json: "f23", ron: "f23", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }] }, VariantDef { name: "V8", json: "V8", kind: Kind::Named, fields: &[FieldDef { name: "f26", json: "f26", ron: "f26", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: bool = true; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f25", json: "f25", ron: "f25", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f24", json: "Ren24", ron: "Ren24", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionbool_24().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }] }, VariantDef { name: "V9", json: "V9", kind: Kind::Named, fields: &[FieldDef { name: "f27", json: "N27", ron: "N27", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }] }, VariantDef { name: "V10", json: "V10", kind: Kind::Named, fields: &[FieldDef { name: "f30", json: "f30", ron: "f30", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }, FieldDef { name: "f32", json: "f32", ron: "f32", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f31", json: "f31", ron: "f31", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }] }, VariantDef { name: "V11", json: "V11", kind: Kind::Named, fields: &[FieldDef { name: "f35", json: "f35", ron: "f35", ty: <MKind as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }] }, VariantDef { name: "V12", json: "V12", kind: Kind::Named, fields: &[FieldDef { name: "f36", json: "f36", ron: "f36", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEOptionbool_36().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }, FieldDef { name: "f37", json: "f37", ron: "f37", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f38", json: "type38", ron: "type38", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }] }, VariantDef { name: "V13", json: "V13", kind: Kind::Named, fields: &[FieldDef { name: "f39", json: "N39", ron: "N39", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }] }, VariantDef { name: "V14", json: "V14", kind: Kind::Named, fields: &[FieldDef { name: "f42", json: "Ren42", ron: "Ren42", ty: <Option<bool> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }, FieldDef { name: "f44", json: "type44", ron: "type44", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f43", json: "f43", ron: "f43", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }] }, VariantDef { name: "V15", json: "V15", kind: Kind::Named, fields: &[FieldDef { name: "f45", json: "f45", ron: "f45", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }, FieldDef { name: "f47", json: "_47", ron: "_47", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f46", json: "f46", ron: "f46", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }] }, VariantDef { name: "V16", json: "V16", kind: Kind::Named, fields: &[FieldDef { name: "f50", json: "type50", ron: "type50", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionbool_50().to_val()), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }] }, VariantDef { name: "V17", json: "V17", kind: Kind::Named, fields: &[FieldDef { name: "f51", json: "f51", ron: "f51", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }, FieldDef { name: "f52", json: "f52", ron: "f52", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f53", json: "_53", ron: "_53", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: i64 = -5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }] }, VariantDef { name: "V18", json: "V18", kind: Kind::Named, fields: &[FieldDef { name: "f55", json: "f55", ron: "f55", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f56", json: "f56", ron: "f56", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f54", json: "f54", ron: "f54", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }] }, VariantDef { name: "V19", json: "V19", kind: Kind::Named, fields: &[FieldDef { name: "f59", json: "_59", ron: "_59", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: i64 = -5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f58", json: "f58", ron: "f58", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f57", json: "f57", ron: "f57", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionbool_57().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }] }, VariantDef { name: "V20", json: "V20", kind: Kind::Named, fields: &[FieldDef { name: "f62", json: "f62", ron: "f62", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f61", json: "f61", ron: "f61", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f60", json: "Ren60", ron: "Ren60", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::V0 { f0: Subject::from_val(&x_[0]), f2: Subject::from_val(&x_[1]), f1: Subject::from_val(&x_[2]) }, 1 => Self::V1 { f5: Subject::from_val(&x_[0]), f3: Subject::from_val(&x_[1]), f4: Subject::from_val(&x_[2]) }, 2 => Self::V2 { f8: Subject::from_val(&x_[0]), f7: Subject::from_val(&x_[1]), f6: Subject::from_val(&x_[2]) }, 3 => Self::V3 { f10: Subject::from_val(&x_[0]) }, 4 => Self::V4 { f14: Subject::from_val(&x_[0]), f12: Subject::from_val(&x_[1]), f13: Subject::from_val(&x_[2]) }, 5 => Self::V5 { f15: Subject::from_val(&x_[0]), f17: Subject::from_val(&x_[1]), f16: Subject::from_val(&x_[2]) }, 6 => Self::V6 { f19: Subject::from_val(&x_[0]), f18: Subject::from_val(&x_[1]), f20: Subject::from_val(&x_[2]) }, 7 => Self::V7 { f21: Subject::from_val(&x_[0]), f22: Subject::from_val(&x_[1]), f23: Subject::from_val(&x_[2]) }, 8 => Self::V8 { f26: Subject::from_val(&x_[0]), f25: Subject::from_val(&x_[1]), f24: Subject::from_val(&x_[2]) }, 9 => Self::V9 { f27: Subject::from_val(&x_[0]) }, 10 => Self::V10 { f30: Subject::from_val(&x_[0]), f32: Subject::from_val(&x_[1]), f31: Subject::from_val(&x_[2]) }, 11 => Self::V11 { f35: Subject::from_val(&x_[0]) }, 12 => Self::V12 { f36: Subject::from_val(&x_[0]), f37: Subject::from_val(&x_[1]), f38: Subject::from_val(&x_[2]) }, 13 => Self::V13 { f39: Subject::from_val(&x_[0]) }, 14 => Self::V14 { f42: Subject::from_val(&x_[0]), f44: Subject::from_val(&x_[1]), f43: Subject::from_val(&x_[2]) }, 15 => Self::V15 { f45: Subject::from_val(&x_[0]), f47: Subject::from_val(&x_[1]), f46: Subject::from_val(&x_[2]) }, 16 => Self::V16 { f50: Subject::from_val(&x_[0]) }, 17 => Self::V17 { f51: Subject::from_val(&x_[0]), f52: Subject::from_val(&x_[1]), f53: Subject::from_val(&x_[2]) }, 18 => Self::V18 { f55: Subject::from_val(&x_[0]), f56: Subject::from_val(&x_[1]), f54: Subject::from_val(&x_[2]) }, 19 => Self::V19 { f59: Subject::from_val(&x_[0]), f58: Subject::from_val(&x_[1]), f57: Subject::from_val(&x_[2]) }, 20 => Self::V20 { f62: Subject::from_val(&x_[0]), f61: Subject::from_val(&x_[1]), f60: Subject::from_val(&x_[2]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::V0 { f0: b0, f2: b1, f1: b2 } => Val::Enum(0, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V1 { f5: b0, f3: b1, f4: b2 } => Val::Enum(1, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V2 { f8: b0, f7: b1, f6: b2 } => Val::Enum(2, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V3 { f10: b0 } => Val::Enum(3, vec![b0.to_val()]), Self::V4 { f14: b0, f12: b1, f13: b2 } => Val::Enum(4, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V5 { f15: b0, f17: b1, f16: b2 } => Val::Enum(5, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V6 { f19: b0, f18: b1, f20: b2 } => Val::Enum(6, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V7 { f21: b0, f22: b1, f23: b2 } => Val::Enum(7, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V8 { f26: b0, f25: b1, f24: b2 } => Val::Enum(8, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V9 { f27: b0 } => Val::Enum(9, vec![b0.to_val()]), Self::V10 { f30: b0, f32: b1, f31: b2 } => Val::Enum(10, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V11 { f35: b0 } => Val::Enum(11, vec![b0.to_val()]), Self::V12 { f36: b0, f37: b1, f38: b2 } => Val::Enum(12, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V13 { f39: b0 } => Val::Enum(13, vec![b0.to_val()]), Self::V14 { f42: b0, f44: b1, f43: b2 } => Val::Enum(14, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V15 { f45: b0, f47: b1, f46: b2 } => Val::Enum(15, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V16 { f50: b0 } => Val::Enum(16, vec![b0.to_val()]), Self::V17 { f51: b0, f52: b1, f53: b2 } => Val::Enum(17, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V18 { f55: b0, f56: b1, f54: b2 } => Val::Enum(18, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V19 { f59: b0, f58: b1, f57: b2 } => Val::Enum(19, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V20 { f62: b0, f61: b1, f60: b2 } => Val::Enum(20, vec![b0.to_val(), b1.to_val(), b2.to_val()]), } }
}
fn mw_MEOptionbool_2() -> Option<Vec<Option<u8>>> { <Option<Vec<Option<u8>>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<Option<u8>>>>(1839)) }
fn mw_MEOptionbool_11() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(1848)) }
fn mw_MEOptionbool_12() -> Option<bool> { <Option<bool> as Subject>::from_val(&vcore::gen::sample::<Option<bool>>(1849)) }
fn mw_MEOptionbool_14() -> Option<Vec<Option<u8>>> { <Option<Vec<Option<u8>>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<Option<u8>>>>(1851)) }
fn mw_MEOptionbool_24() -> Option<bool> { <Option<bool> as Subject>::from_val(&vcore::gen::sample::<Option<bool>>(1861)) }
fn mw_MEOptionbool_36() -> Option<bool> { <Option<bool> as Subject>::from_val(&vcore::gen::sample::<Option<bool>>(1873)) }
fn mw_MEOptionbool_41() -> Option<Vec<String>> { <Option<Vec<String>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<String>>>(1878)) }
fn mw_MEOptionbool_50() -> f32 { <f32 as Subject>::from_val(&vcore::gen::sample::<f32>(1887)) }
fn mw_MEOptionbool_57() -> Option<bool> { <Option<bool> as Subject>::from_val(&vcore::gen::sample::<Option<bool>>(1894)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct MSStringAgain {
    #[nserde(default, skip)] pub f0: String,
    #[nserde(default)] pub f1: String,
    #[nserde(skip)] #[nserde(default = r#"a "b" \{}"#)] pub f2: String,
    #[nserde(default_with = "mw_MSStringAgain_3", skip)] pub f3: String,
    #[nserde(default = r#"a "b" \{}"#)] pub f4: String,
    #[nserde(skip)] pub f5: String,
    #[nserde(default_with = "mw_MSStringAgain_6")] pub f6: String,
    #[nserde(default, rename = "ключ_7")] pub f7: String,
    #[nserde(rename = "type8")] pub f8: String,
    #[nserde(default, skip, rename = "N9")] pub f9: String,
    #[nserde(rename = "some_10")] #[nserde(default_with = "mw_MSStringAgain_10")] pub f10: String,
    #[nserde(default = r#"a "b" \{}"#, rename = "_11", skip)] pub f11: String,
    #[nserde(default = r#"a "b" \{}"#)] #[nserde(rename = "Ren12")] pub f12: String,
    pub f13: String,
    #[nserde(skip)] #[nserde(rename = "type14")] pub f14: String,
}
impl Subject for MSStringAgain  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MSStringAgain", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <String as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <String as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <String as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: String = String::from("a \"b\" \\{}"); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "f3", ron: "f3", ty: <String as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MSStringAgain_3().to_val()), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: String = String::from("a \"b\" \\{}"); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSStringAgain_6().to_val()), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "ключ_7", ron: "ключ_7", ty: <String as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "type8", ron: "type8", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "N9", ron: "N9", ty: <String as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "some_10", ron: "some_10", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSStringAgain_10().to_val()), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "_11", ron: "_11", ty: <String as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: String = String::from("a \"b\" \\{}"); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "Ren12", ron: "Ren12", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: String = String::from("a \"b\" \\{}"); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MSStringAgain { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val()]) }
}
fn mw_MSStringAgain_3() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(1871)) }
fn mw_MSStringAgain_6() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(1874)) }
fn mw_MSStringAgain_10() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(1878)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default)]
pub struct MDStringAgain {
    #[nserde(default, skip)] pub f0: String,
    #[nserde(rename = "ключ_1", default)] pub f1: String,
    #[nserde(default)] #[nserde(skip)] #[nserde(rename = "type2")] pub f2: String,
    #[nserde(skip, default_with = "mw_MDStringAgain_3")] pub f3: String,
    #[nserde(rename = "some_4")] pub f4: String,
    #[nserde(skip)] pub f5: String,
    #[nserde(default_with = "mw_MDStringAgain_6")] #[nserde(rename = "Ren6")] pub f6: String,
    #[nserde(skip, rename = "ключ_7", default = r#"a "b" \{}"#)] pub f7: String,
    #[nserde(default)] pub f8: String,
    #[nserde(rename = "N9", default = r#"a "b" \{}"#)] pub f9: String,
    #[nserde(default = r#"a "b" \{}"#)] pub f10: String,
    #[nserde(rename = "_11")] #[nserde(skip)] pub f11: String,
    #[nserde(default = r#"a "b" \{}"#)] #[nserde(skip)] pub f12: String,
    #[nserde(default_with = "mw_MDStringAgain_13")] pub f13: String,
    pub f14: String,
}
impl Subject for MDStringAgain  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MDStringAgain", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <String as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <String as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "type2", ron: "type2", ty: <String as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "f3", ron: "f3", ty: <String as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MDStringAgain_3().to_val()), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "some_4", ron: "some_4", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDStringAgain_6().to_val()), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "ключ_7", ron: "ключ_7", ty: <String as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: String = String::from("a \"b\" \\{}"); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <String as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "N9", ron: "N9", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: String = String::from("a \"b\" \\{}"); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: String = String::from("a \"b\" \\{}"); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "_11", ron: "_11", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <String as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: String = String::from("a \"b\" \\{}"); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDStringAgain_13().to_val()), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MDStringAgain { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val()]) }
}
fn mw_MDStringAgain_3() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(1902)) }
fn mw_MDStringAgain_6() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(1905)) }
fn mw_MDStringAgain_13() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(1912)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum MEStringAgain {
    V0 { #[nserde(default)] f2: i16, f1: i16, f0: String },
    V1 { #[nserde(rename = "N3")] f3: String, #[nserde(default)] #[nserde(skip)] f5: i16, f4: i16 },
    V2 { #[nserde(default)] f6: String, #[nserde(skip)] f8: Option<MSmall>, f7: Option<MSmall> },
    V3 { f10: Option<MKind>, #[nserde(default = r#"a "b" \{}"#)] f9: String, #[nserde(skip)] f11: Option<MKind> },
    V4 { #[nserde(rename = "type14", skip, default)] f14: Option<MKind>, f13: Option<MKind> },
    V5 { #[nserde(skip, default_with = "mw_MEStringAgain_17")] f17: Option<MKind>, #[nserde(skip)] f15: String },
    V6 { f19: MSmall, #[nserde(default, rename = "Ren18")] f18: String, #[nserde(skip, default, rename = "type20")] f20: MSmall },
    V7 { f22: BTreeMap<String, u8> },
    V8 { #[nserde(skip, rename = "type26", default = "(1, String::new())")] f26: (u8, String), #[nserde(rename = "Ren24", default_with = "mw_MEStringAgain_24")] f24: String, f25: (u8, String) },
    V9 { #[nserde(skip)] #[nserde(rename = "N27")] f27: String, f28: Vec<u16>, #[nserde(rename = "_29", skip)] f29: Vec<u16> },
    V10 { f31: Option<MSmall>, #[nserde(default = "MSmall { x: 9, y: Some(true) }")] f32: Option<MSmall>, #[nserde(skip)] #[nserde(default)] f30: String },
    V11 { #[nserde(skip)] f35: Vec<String>, #[nserde(default = r#"a "b" \{}"#, skip)] f33: String },
    V12 { f37: Vec<u16>, #[nserde(skip)] #[nserde(default_with = "mw_MEStringAgain_36")] f36: String, #[nserde(default = "vec![1, 2]")] #[nserde(rename = "type38")] f38: Vec<u16> },
    V13 { #[nserde(rename = "_41", default, skip)] f41: Option<MKind>, f40: Option<MKind>, #[nserde(default)] #[nserde(skip)] #[nserde(rename = "N39")] f39: String },
    V14 { #[nserde(skip)] #[nserde(default_with = "mw_MEStringAgain_44")] f44: String },
}
impl Subject for MEStringAgain {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "MEStringAgain", variants: &[VariantDef { name: "V0", json: "V0", kind: Kind::Named, fields: &[FieldDef { name: "f2", json: "f2", ron: "f2", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }, FieldDef { name: "f1", json: "f1", ron: "f1", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }, FieldDef { name: "f0", json: "f0", ron: "f0", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V1", json: "V1", kind: Kind::Named, fields: &[FieldDef { name: "f3", json: "N3", ron: "N3", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f5", json: "f5", ron: "f5", ty: <i16 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }, FieldDef { name: "f4", json: "f4", ron: "f4", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }] }, VariantDef { name: "V2", json: "V2", kind: Kind::Named, fields: &[FieldDef { name: "f6", json: "f6", ron: "f6", ty: <String as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }, FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }] }, VariantDef { name: "V3", json: "V3", kind: Kind::Named, fields: &[FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f9", json: "f9", ron: "f9", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: String = String::from("a \"b\" \\{}"); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f11", json: "f11", ron: "f11", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }] }, VariantDef { name: "V4", json: "V4", kind: Kind::Named, fields: &[FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }] }, VariantDef { name: "V5", json: "V5", kind: Kind::Named, fields: &[FieldDef { name: "f17", json: "f17", ron: "f17", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEStringAgain_17().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f15", json: "f15", ron: "f15", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V6", json: "V6", kind: Kind::Named, fields: &[FieldDef { name: "f19", json: "f19", ron: "f19", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }, FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <String as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f20", json: "type20", ron: "type20", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }] }, VariantDef { name: "V7", json: "V7", kind: Kind::Named, fields: &[FieldDef { name: "f22", json: "f22", ron: "f22", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }] }, VariantDef { name: "V8", json: "V8", kind: Kind::Named, fields: &[FieldDef { name: "f26", json: "type26", ron: "type26", ty: <(u8, String) as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: (u8, String) = (1, String::new()); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }, FieldDef { name: "f24", json: "Ren24", ron: "Ren24", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEStringAgain_24().to_val()), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f25", json: "f25", ron: "f25", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }] }, VariantDef { name: "V9", json: "V9", kind: Kind::Named, fields: &[FieldDef { name: "f27", json: "N27", ron: "N27", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f28", json: "f28", ron: "f28", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }, FieldDef { name: "f29", json: "_29", ron: "_29", ty: <Vec<u16> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }] }, VariantDef { name: "V10", json: "V10", kind: Kind::Named, fields: &[FieldDef { name: "f31", json: "f31", ron: "f31", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }, FieldDef { name: "f32", json: "f32", ron: "f32", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }, FieldDef { name: "f30", json: "f30", ron: "f30", ty: <String as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V11", json: "V11", kind: Kind::Named, fields: &[FieldDef { name: "f35", json: "f35", ron: "f35", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f33", json: "f33", ron: "f33", ty: <String as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: String = String::from("a \"b\" \\{}"); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V12", json: "V12", kind: Kind::Named, fields: &[FieldDef { name: "f37", json: "f37", ron: "f37", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }, FieldDef { name: "f36", json: "f36", ron: "f36", ty: <String as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEStringAgain_36().to_val()), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f38", json: "type38", ron: "type38", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Vec<u16> = vec![1, 2]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }] }, VariantDef { name: "V13", json: "V13", kind: Kind::Named, fields: &[FieldDef { name: "f41", json: "_41", ron: "_41", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f40", json: "f40", ron: "f40", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f39", json: "N39", ron: "N39", ty: <String as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V14", json: "V14", kind: Kind::Named, fields: &[FieldDef { name: "f44", json: "f44", ron: "f44", ty: <String as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEStringAgain_44().to_val()), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::V0 { f2: Subject::from_val(&x_[0]), f1: Subject::from_val(&x_[1]), f0: Subject::from_val(&x_[2]) }, 1 => Self::V1 { f3: Subject::from_val(&x_[0]), f5: Subject::from_val(&x_[1]), f4: Subject::from_val(&x_[2]) }, 2 => Self::V2 { f6: Subject::from_val(&x_[0]), f8: Subject::from_val(&x_[1]), f7: Subject::from_val(&x_[2]) }, 3 => Self::V3 { f10: Subject::from_val(&x_[0]), f9: Subject::from_val(&x_[1]), f11: Subject::from_val(&x_[2]) }, 4 => Self::V4 { f14: Subject::from_val(&x_[0]), f13: Subject::from_val(&x_[1]) }, 5 => Self::V5 { f17: Subject::from_val(&x_[0]), f15: Subject::from_val(&x_[1]) }, 6 => Self::V6 { f19: Subject::from_val(&x_[0]), f18: Subject::from_val(&x_[1]), f20: Subject::from_val(&x_[2]) }, 7 => Self::V7 { f22: Subject::from_val(&x_[0]) }, 8 => Self::V8 { f26: Subject::from_val(&x_[0]), f24: Subject::from_val(&x_[1]), f25: Subject::from_val(&x_[2]) }, 9 => Self::V9 { f27: Subject::from_val(&x_[0]), f28: Subject::from_val(&x_[1]), f29: Subject::from_val(&x_[2]) }, 10 => Self::V10 { f31: Subject::from_val(&x_[0]), f32: Subject::from_val(&x_[1]), f30: Subject::from_val(&x_[2]) }, 11 => Self::V11 { f35: Subject::from_val(&x_[0]), f33: Subject::from_val(&x_[1]) }, 12 => Self::V12 { f37: Subject::from_val(&x_[0]), f36: Subject::from_val(&x_[1]), f38: Subject::from_val(&x_[2]) }, 13 => Self::V13 { f41: Subject::from_val(&x_[0]), f40: Subject::from_val(&x_[1]), f39: Subject::from_val(&x_[2]) }, 14 => Self::V14 { f44: Subject::from_val(&x_[0]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::V0 { f2: b0, f1: b1, f0: b2 } => Val::Enum(0, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V1 { f3: b0, f5: b1, f4: b2 } => Val::Enum(1, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V2 { f6: b0, f8: b1, f7: b2 } => Val::Enum(2, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V3 { f10: b0, f9: b1, f11: b2 } => Val::Enum(3, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V4 { f14: b0, f13: b1 } => Val::Enum(4, vec![b0.to_val(), b1.to_val()]), Self::V5 { f17: b0, f15: b1 } => Val::Enum(5, vec![b0.to_val(), b1.to_val()]), Self::V6 { f19: b0, f18: b1, f20: b2 } => Val::Enum(6, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V7 { f22: b0 } => Val::Enum(7, vec![b0.to_val()]), Self::V8 { f26: b0, f24: b1, f25: b2 } => Val::Enum(8, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V9 { f27: b0, f28: b1, f29: b2 } => Val::Enum(9, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V10 { f31: b0, f32: b1, f30: b2 } => Val::Enum(10, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V11 { f35: b0, f33: b1 } => Val::Enum(11, vec![b0.to_val(), b1.to_val()]), Self::V12 { f37: b0, f36: b1, f38: b2 } => Val::Enum(12, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V13 { f41: b0, f40: b1, f39: b2 } => Val::Enum(13, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V14 { f44: b0 } => Val::Enum(14, vec![b0.to_val()]), } }
}
fn mw_MEStringAgain_12() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(1942)) }
fn mw_MEStringAgain_17() -> Option<MKind> { <Option<MKind> as Subject>::from_val(&vcore::gen::sample::<Option<MKind>>(1947)) }
fn mw_MEStringAgain_23() -> BTreeMap<String, u8> { <BTreeMap<String, u8> as Subject>::from_val(&vcore::gen::sample::<BTreeMap<String, u8>>(1953)) }
fn mw_MEStringAgain_24() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(1954)) }
fn mw_MEStringAgain_36() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(1966)) }
fn mw_MEStringAgain_44() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(1974)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct MSVecString {
    #[nserde(rename = "Ren0", skip, default)] pub f0: Vec<String>,
    #[nserde(default)] pub f1: Vec<String>,
    #[nserde(skip, rename = "type2")] pub f2: Vec<String>,
    #[nserde(rename = "N3")] #[nserde(default = "vec![String::from(\"a\\n\")]")] #[nserde(skip)] pub f3: Vec<String>,
    #[nserde(default_with = "mw_MSVecString_4")] pub f4: Vec<String>,
    #[nserde(skip)] #[nserde(default)] pub f5: Vec<String>,
    #[nserde(default = "vec![String::from(\"a\\n\")]")] pub f6: Vec<String>,
    #[nserde(default = "vec![String::from(\"a\\n\")]", rename = "ключ_7")] pub f7: Vec<String>,
    #[nserde(skip)] pub f8: Vec<String>,
    #[nserde(default_with = "mw_MSVecString_9")] #[nserde(rename = "N9")] pub f9: Vec<String>,
    #[nserde(default = "vec![String::from(\"a\\n\")]", skip)] pub f10: Vec<String>,
    #[nserde(skip, default_with = "mw_MSVecString_11")] pub f11: Vec<String>,
    pub f12: Vec<String>,
    #[nserde(rename = "ключ_13")] pub f13: Vec<String>,
    #[nserde(default, rename = "type14")] pub f14: Vec<String>,
}
impl Subject for MSVecString  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MSVecString", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "Ren0", ron: "Ren0", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "type2", ron: "type2", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Vec<String> = vec![String::from("a\n")]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSVecString_4().to_val()), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Vec<String> = vec![String::from("a\n")]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "ключ_7", ron: "ключ_7", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Vec<String> = vec![String::from("a\n")]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "N9", ron: "N9", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSVecString_9().to_val()), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Vec<String> = vec![String::from("a\n")]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MSVecString_11().to_val()), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "ключ_13", ron: "ключ_13", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MSVecString { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val()]) }
}
fn mw_MSVecString_4() -> Vec<String> { <Vec<String> as Subject>::from_val(&vcore::gen::sample::<Vec<String>>(1965)) }
fn mw_MSVecString_9() -> Vec<String> { <Vec<String> as Subject>::from_val(&vcore::gen::sample::<Vec<String>>(1970)) }
fn mw_MSVecString_11() -> Vec<String> { <Vec<String> as Subject>::from_val(&vcore::gen::sample::<Vec<String>>(1972)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default)]
pub struct MDVecString {
    #[nserde(rename = "Ren0", default, skip)] pub f0: Vec<String>,
    #[nserde(default = "vec![String::from(\"a\\n\")]")] pub f1: Vec<String>,
    #[nserde(skip)] pub f2: Vec<String>,
    #[nserde(default)] #[nserde(rename = "N3")] pub f3: Vec<String>,
    #[nserde(default = "vec![String::from(\"a\\n\")]")] #[nserde(skip)] pub f4: Vec<String>,
    #[nserde(default)] pub f5: Vec<String>,
    #[nserde(skip)] #[nserde(rename = "Ren6")] pub f6: Vec<String>,
    #[nserde(rename = "ключ_7")] pub f7: Vec<String>,
    #[nserde(skip)] #[nserde(rename = "type8")] #[nserde(default = "vec![String::from(\"a\\n\")]")] pub f8: Vec<String>,
    #[nserde(default = "vec![String::from(\"a\\n\")]", rename = "N9")] pub f9: Vec<String>,
    #[nserde(skip)] #[nserde(default)] pub f10: Vec<String>,
    #[nserde(default_with = "mw_MDVecString_11", rename = "_11")] pub f11: Vec<String>,
    #[nserde(skip, default_with = "mw_MDVecString_12")] pub f12: Vec<String>,
    #[nserde(default_with = "mw_MDVecString_13")] pub f13: Vec<String>,
    pub f14: Vec<String>,
}
impl Subject for MDVecString  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MDVecString", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "Ren0", ron: "Ren0", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Vec<String> = vec![String::from("a\n")]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Vec<String> = vec![String::from("a\n")]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "ключ_7", ron: "ключ_7", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "type8", ron: "type8", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Vec<String> = vec![String::from("a\n")]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "N9", ron: "N9", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Vec<String> = vec![String::from("a\n")]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "_11", ron: "_11", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDVecString_11().to_val()), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MDVecString_12().to_val()), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDVecString_13().to_val()), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MDVecString { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val()]) }
}
fn mw_MDVecString_11() -> Vec<String> { <Vec<String> as Subject>::from_val(&vcore::gen::sample::<Vec<String>>(2003)) }
fn mw_MDVecString_12() -> Vec<String> { <Vec<String> as Subject>::from_val(&vcore::gen::sample::<Vec<String>>(2004)) }
fn mw_MDVecString_13() -> Vec<String> { <Vec<String> as Subject>::from_val(&vcore::gen::sample::<Vec<String>>(2005)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum MEVecString {
    V0 { f0: Vec<String>, f1: Option<bool>, #[nserde(rename = "type2")] f2: Option<bool> },
    V1 { #[nserde(default_with = "mw_MEVecString_5", skip)] f5: String, #[nserde(rename = "N3")] f3: Vec<String>, f4: String },
    V2 { #[nserde(skip)] f8: MKind, #[nserde(default)] f6: Vec<String>, f7: MKind },
    V3 { #[nserde(skip)] f11: Option<Vec<Option<u8>>> },
    V4 { #[nserde(default = -7, skip)] f14: i16, f13: i16, #[nserde(default_with = "mw_MEVecString_12")] f12: Vec<String> },
    V5 { #[nserde(rename = "_17")] #[nserde(default)] f17: String, f16: String, #[nserde(skip)] f15: Vec<String> },
    V6 { #[nserde(default_with = "mw_MEVecString_20")] f20: Vec<String>, #[nserde(rename = "Ren18", default)] f18: Vec<String> },
    V7 { f22: bool, #[nserde(default = "vec![String::from(\"a\\n\")]", rename = "N21")] f21: Vec<String>, f23: bool },
    V8 { #[nserde(default_with = "mw_MEVecString_24")] #[nserde(rename = "Ren24")] f24: Vec<String>, #[nserde(default = "vec![String::from(\"a\\n\")]")] f26: Vec<String>, f25: Vec<String> },
    V9 { #[nserde(default_with = "mw_MEVecString_29")] f29: Option<bool>, #[nserde(skip)] #[nserde(rename = "N27")] f27: Vec<String>, f28: Option<bool> },
    V10 { #[nserde(skip, default)] f30: Vec<String>, f32: Vec<String>, f31: Vec<String> },
    V11 { #[nserde(rename = "_35")] #[nserde(default_with = "mw_MEVecString_35")] f35: MKind, #[nserde(skip, default = "vec![String::from(\"a\\n\")]")] f33: Vec<String>, f34: MKind },
    V12 { f37: Option<f64>, #[nserde(default)] f38: Option<f64>, #[nserde(default_with = "mw_MEVecString_36", skip)] f36: Vec<String> },
    V13 { f40: Option<f64>, #[nserde(rename = "_41", default = -0.5, skip)] f41: Option<f64>, #[nserde(default, rename = "N39", skip)] f39: Vec<String> },
    V14 { #[nserde(skip)] #[nserde(default = "vec![String::from(\"a\\n\")]")] #[nserde(rename = "Ren42")] f42: Vec<String>, f43: Option<Vec<Option<u8>>>, #[nserde(rename = "type44")] f44: Option<Vec<Option<u8>>> },
}
impl Subject for MEVecString {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "MEVecString", variants: &[VariantDef { name: "V0", json: "V0", kind: Kind::Named, fields: &[FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }, FieldDef { name: "f2", json: "type2", ron: "type2", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }] }, VariantDef { name: "V1", json: "V1", kind: Kind::Named, fields: &[FieldDef { name: "f5", json: "f5", ron: "f5", ty: <String as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEVecString_5().to_val()), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f4", json: "f4", ron: "f4", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V2", json: "V2", kind: Kind::Named, fields: &[FieldDef { name: "f8", json: "f8", ron: "f8", ty: <MKind as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }, FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f7", json: "f7", ron: "f7", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }] }, VariantDef { name: "V3", json: "V3", kind: Kind::Named, fields: &[FieldDef { name: "f11", json: "f11", ron: "f11", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }] }, VariantDef { name: "V4", json: "V4", kind: Kind::Named, fields: &[FieldDef { name: "f14", json: "f14", ron: "f14", ty: <i16 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: i16 = -7; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }, FieldDef { name: "f13", json: "f13", ron: "f13", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }, FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEVecString_12().to_val()), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }] }, VariantDef { name: "V5", json: "V5", kind: Kind::Named, fields: &[FieldDef { name: "f17", json: "_17", ron: "_17", ty: <String as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f16", json: "f16", ron: "f16", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f15", json: "f15", ron: "f15", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }] }, VariantDef { name: "V6", json: "V6", kind: Kind::Named, fields: &[FieldDef { name: "f20", json: "f20", ron: "f20", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEVecString_20().to_val()), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }] }, VariantDef { name: "V7", json: "V7", kind: Kind::Named, fields: &[FieldDef { name: "f22", json: "f22", ron: "f22", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f21", json: "N21", ron: "N21", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Vec<String> = vec![String::from("a\n")]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f23", json: "f23", ron: "f23", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] }, VariantDef { name: "V8", json: "V8", kind: Kind::Named, fields: &[FieldDef { name: "f24", json: "Ren24", ron: "Ren24", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEVecString_24().to_val()), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f26", json: "f26", ron: "f26", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Vec<String> = vec![String::from("a\n")]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f25", json: "f25", ron: "f25", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }] }, VariantDef { name: "V9", json: "V9", kind: Kind::Named, fields: &[FieldDef { name: "f29", json: "f29", ron: "f29", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEVecString_29().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }, FieldDef { name: "f27", json: "N27", ron: "N27", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f28", json: "f28", ron: "f28", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }] }, VariantDef { name: "V10", json: "V10", kind: Kind::Named, fields: &[FieldDef { name: "f30", json: "f30", ron: "f30", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f32", json: "f32", ron: "f32", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f31", json: "f31", ron: "f31", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }] }, VariantDef { name: "V11", json: "V11", kind: Kind::Named, fields: &[FieldDef { name: "f35", json: "_35", ron: "_35", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEVecString_35().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }, FieldDef { name: "f33", json: "f33", ron: "f33", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Vec<String> = vec![String::from("a\n")]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f34", json: "f34", ron: "f34", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }] }, VariantDef { name: "V12", json: "V12", kind: Kind::Named, fields: &[FieldDef { name: "f37", json: "f37", ron: "f37", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f38", json: "f38", ron: "f38", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f36", json: "f36", ron: "f36", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEVecString_36().to_val()), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }] }, VariantDef { name: "V13", json: "V13", kind: Kind::Named, fields: &[FieldDef { name: "f40", json: "f40", ron: "f40", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f41", json: "_41", ron: "_41", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f39", json: "N39", ron: "N39", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }] }, VariantDef { name: "V14", json: "V14", kind: Kind::Named, fields: &[FieldDef { name: "f42", json: "Ren42", ron: "Ren42", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Vec<String> = vec![String::from("a\n")]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f43", json: "f43", ron: "f43", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f44", json: "type44", ron: "type44", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::V0 { f0: Subject::from_val(&x_[0]), f1: Subject::from_val(&x_[1]), f2: Subject::from_val(&x_[2]) }, 1 => Self::V1 { f5: Subject::from_val(&x_[0]), f3: Subject::from_val(&x_[1]), f4: Subject::from_val(&x_[2]) }, 2 => Self::V2 { f8: Subject::from_val(&x_[0]), f6: Subject::from_val(&x_[1]), f7: Subject::from_val(&x_[2]) }, 3 => Self::V3 { f11: Subject::from_val(&x_[0]) }, 4 => Self::V4 { f14: Subject::from_val(&x_[0]), f13: Subject::from_val(&x_[1]), f12: Subject::from_val(&x_[2]) }, 5 => Self::V5 { f17: Subject::from_val(&x_[0]), f16: Subject::from_val(&x_[1]), f15: Subject::from_val(&x_[2]) }, 6 => Self::V6 { f20: Subject::from_val(&x_[0]), f18: Subject::from_val(&x_[1]) }, 7 => Self::V7 { f22: Subject::from_val(&x_[0]), f21: Subject::from_val(&x_[1]), f23: Subject::from_val(&x_[2]) }, 8 => Self::V8 { f24: Subject::from_val(&x_[0]), f26: Subject::from_val(&x_[1]), f25: Subject::from_val(&x_[2]) }, 9 => Self::V9 { f29: Subject::from_val(&x_[0]), f27: Subject::from_val(&x_[1]), f28: Subject::from_val(&x_[2]) }, 10 => Self::V10 { f30: Subject::from_val(&x_[0]), f32: Subject::from_val(&x_[1]), f31: Subject::from_val(&x_[2]) }, 11 => Self::V11 { f35: Subject::from_val(&x_[0]), f33: Subject::from_val(&x_[1]), f34: Subject::from_val(&x_[2]) }, 12 => Self::V12 { f37: Subject::from_val(&x_[0]), f38: Subject::from_val(&x_[1]), f36: Subject::from_val(&x_[2]) }, 13 => Self::V13 { f40: Subject::from_val(&x_[0]), f41: Subject::from_val(&x_[1]), f39: Subject::from_val(&x_[2]) }, 14 => Self::V14 { f42: Subject::from_val(&x_[0]), f43: Subject::from_val(&x_[1]), f44: Subject::from_val(&x_[2]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::V0 { f0: b0, f1: b1, f2: b2 } => Val::Enum(0, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V1 { f5: b0, f3: b1, f4: b2 } => Val::Enum(1, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V2 { f8: b0, f6: b1, f7: b2 } => Val::Enum(2, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V3 { f11: b0 } => Val::Enum(3, vec![b0.to_val()]), Self::V4 { f14: b0, f13: b1, f12: b2 } => Val::Enum(4, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V5 { f17: b0, f16: b1, f15: b2 } => Val::Enum(5, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V6 { f20: b0, f18: b1 } => Val::Enum(6, vec![b0.to_val(), b1.to_val()]), Self::V7 { f22: b0, f21: b1, f23: b2 } => Val::Enum(7, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V8 { f24: b0, f26: b1, f25: b2 } => Val::Enum(8, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V9 { f29: b0, f27: b1, f28: b2 } => Val::Enum(9, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V10 { f30: b0, f32: b1, f31: b2 } => Val::Enum(10, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V11 { f35: b0, f33: b1, f34: b2 } => Val::Enum(11, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V12 { f37: b0, f38: b1, f36: b2 } => Val::Enum(12, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V13 { f40: b0, f41: b1, f39: b2 } => Val::Enum(13, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V14 { f42: b0, f43: b1, f44: b2 } => Val::Enum(14, vec![b0.to_val(), b1.to_val(), b2.to_val()]), } }
}
fn mw_MEVecString_5() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(2028)) }
fn mw_MEVecString_12() -> Vec<String> { <Vec<String> as Subject>::from_val(&vcore::gen::sample::<Vec<String>>(2035)) }
fn mw_MEVecString_20() -> Vec<String> { <Vec<String> as Subject>::from_val(&vcore::gen::sample::<Vec<String>>(2043)) }
fn mw_MEVecString_24() -> Vec<String> { <Vec<String> as Subject>::from_val(&vcore::gen::sample::<Vec<String>>(2047)) }
fn mw_MEVecString_29() -> Option<bool> { <Option<bool> as Subject>::from_val(&vcore::gen::sample::<Option<bool>>(2052)) }
fn mw_MEVecString_35() -> MKind { <MKind as Subject>::from_val(&vcore::gen::sample::<MKind>(2058)) }
fn mw_MEVecString_36() -> Vec<String> { <Vec<String> as Subject>::from_val(&vcore::gen::sample::<Vec<String>>(2059)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct MSOptionVecString {
    #[nserde(skip)] #[nserde(default_with = "mw_MSOptionVecString_0")] pub f0: Option<Vec<String>>,
    #[nserde(rename = "ключ_1", default_with = "mw_MSOptionVecString_1")] pub f1: Option<Vec<String>>,
    #[nserde(skip)] pub f2: Option<Vec<String>>,
    #[nserde(default = r#"vec![String::from("a\n")]"#)] #[nserde(skip)] #[nserde(rename = "N3")] pub f3: Option<Vec<String>>,
    #[nserde(skip, default, rename = "some_4")] pub f4: Option<Vec<String>>,
    #[nserde(default = r#"vec![String::from("a\n")]"#, serialize_none_as_null)] pub f5: Option<Vec<String>>,
    #[nserde(serialize_none_as_null)] #[nserde(default_with = "mw_MSOptionVecString_6")] pub f6: Option<Vec<String>>,
    #[nserde(serialize_none_as_null, default)] pub f7: Option<Vec<String>>,
    #[nserde(default = r#"vec![String::from("a\n")]"#)] pub f8: Option<Vec<String>>,
    #[nserde(default_with = "mw_MSOptionVecString_9")] pub f9: Option<Vec<String>>,
    #[nserde(default)] pub f10: Option<Vec<String>>,
    #[nserde(rename = "_11")] #[nserde(default = r#"vec![String::from("a\n")]"#)] pub f11: Option<Vec<String>>,
    #[nserde(default, rename = "Ren12")] pub f12: Option<Vec<String>>,
    pub f13: Option<Vec<String>>,
    #[nserde(default = r#"vec![String::from("a\n")]"#)] #[nserde(rename = "type14")] #[nserde(serialize_none_as_null)] pub f14: Option<Vec<String>>,
    #[nserde(serialize_none_as_null)] pub f15: Option<Vec<String>>,
    #[nserde(skip)] #[nserde(rename = "some_16")] pub f16: Option<Vec<String>>,
    #[nserde(skip)] #[nserde(default)] pub f17: Option<Vec<String>>,
    #[nserde(default = r#"vec![String::from("a\n")]"#)] #[nserde(skip)] pub f18: Option<Vec<String>>,
    #[nserde(serialize_none_as_null)] #[nserde(rename = "ключ_19")] pub f19: Option<Vec<String>>,
    #[nserde(rename = "type20")] pub f20: Option<Vec<String>>,
}
impl Subject for MSOptionVecString  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MSOptionVecString", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MSOptionVecString_0().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSOptionVecString_1().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "some_4", ron: "some_4", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSOptionVecString_6().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSOptionVecString_9().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "_11", ron: "_11", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "Ren12", ron: "Ren12", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "f15", ron: "f15", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "some_16", ron: "some_16", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "f17", ron: "f17", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "f18", ron: "f18", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "ключ_19", ron: "ключ_19", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "type20", ron: "type20", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MSOptionVecString { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MSOptionVecString_0() -> Option<Vec<String>> { <Option<Vec<String>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<String>>>(2054)) }
fn mw_MSOptionVecString_1() -> Option<Vec<String>> { <Option<Vec<String>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<String>>>(2055)) }
fn mw_MSOptionVecString_6() -> Option<Vec<String>> { <Option<Vec<String>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<String>>>(2060)) }
fn mw_MSOptionVecString_9() -> Option<Vec<String>> { <Option<Vec<String>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<String>>>(2063)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default)]
pub struct MDOptionVecString {
    #[nserde(skip)] #[nserde(default)] pub f0: Option<Vec<String>>,
    #[nserde(default, skip, rename = "ключ_1")] pub f1: Option<Vec<String>>,
    #[nserde(serialize_none_as_null, default = r#"vec![String::from("a\n")]"#, rename = "type2")] pub f2: Option<Vec<String>>,
    #[nserde(skip, rename = "N3")] pub f3: Option<Vec<String>>,
    #[nserde(serialize_none_as_null, default)] pub f4: Option<Vec<String>>,
    #[nserde(default = r#"vec![String::from("a\n")]"#)] pub f5: Option<Vec<String>>,
    #[nserde(default_with = "mw_MDOptionVecString_6", serialize_none_as_null)] pub f6: Option<Vec<String>>,
    #[nserde(default_with = "mw_MDOptionVecString_7")] pub f7: Option<Vec<String>>,
    #[nserde(serialize_none_as_null)] #[nserde(default = r#"vec![String::from("a\n")]"#)] pub f8: Option<Vec<String>>,
    #[nserde(default)] pub f9: Option<Vec<String>>,
    #[nserde(skip, default_with = "mw_MDOptionVecString_10")] pub f10: Option<Vec<String>>,
    #[nserde(skip)] pub f11: Option<Vec<String>>,
    #[nserde(rename = "Ren12")] pub f12: Option<Vec<String>>,
    #[nserde(serialize_none_as_null)] pub f13: Option<Vec<String>>,
    #[nserde(default = r#"vec![String::from("a\n")]"#)] #[nserde(skip)] pub f14: Option<Vec<String>>,
    #[nserde(rename = "N15", default = r#"vec![String::from("a\n")]"#)] pub f15: Option<Vec<String>>,
    #[nserde(rename = "some_16", serialize_none_as_null)] pub f16: Option<Vec<String>>,
    #[nserde(default = r#"vec![String::from("a\n")]"#)] #[nserde(rename = "_17")] #[nserde(skip)] pub f17: Option<Vec<String>>,
    pub f18: Option<Vec<String>>,
    #[nserde(default_with = "mw_MDOptionVecString_19", rename = "ключ_19")] pub f19: Option<Vec<String>>,
    #[nserde(rename = "type20")] #[nserde(default)] pub f20: Option<Vec<String>>,
}
impl Subject for MDOptionVecString  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MDOptionVecString", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "type2", ron: "type2", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDOptionVecString_6().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDOptionVecString_7().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MDOptionVecString_10().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "Ren12", ron: "Ren12", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "N15", ron: "N15", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "some_16", ron: "some_16", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "_17", ron: "_17", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "f18", ron: "f18", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "ключ_19", ron: "ключ_19", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDOptionVecString_19().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "type20", ron: "type20", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MDOptionVecString { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MDOptionVecString_6() -> Option<Vec<String>> { <Option<Vec<String>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<String>>>(2091)) }
fn mw_MDOptionVecString_7() -> Option<Vec<String>> { <Option<Vec<String>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<String>>>(2092)) }
fn mw_MDOptionVecString_10() -> Option<Vec<String>> { <Option<Vec<String>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<String>>>(2095)) }
fn mw_MDOptionVecString_19() -> Option<Vec<String>> { <Option<Vec<String>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<String>>>(2104)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct MNOptionVecString {
    #[nserde(rename = "Ren0", default = r#"vec![String::from("a\n")]"#, skip)] pub f0: Option<Vec<String>>,
    #[nserde(rename = "ключ_1", default = r#"vec![String::from("a\n")]"#)] pub f1: Option<Vec<String>>,
    #[nserde(default_with = "mw_MNOptionVecString_2")] pub f2: Option<Vec<String>>,
    #[nserde(skip, rename = "N3")] pub f3: Option<Vec<String>>,
    #[nserde(serialize_none_as_null, rename = "some_4", default = r#"vec![String::from("a\n")]"#)] pub f4: Option<Vec<String>>,
    #[nserde(default_with = "mw_MNOptionVecString_5")] #[nserde(skip)] pub f5: Option<Vec<String>>,
    #[nserde(skip)] #[nserde(default)] pub f6: Option<Vec<String>>,
    #[nserde(default)] pub f7: Option<Vec<String>>,
    #[nserde(default = r#"vec![String::from("a\n")]"#)] #[nserde(serialize_none_as_null)] pub f8: Option<Vec<String>>,
    #[nserde(serialize_none_as_null)] #[nserde(default_with = "mw_MNOptionVecString_9")] pub f9: Option<Vec<String>>,
    #[nserde(rename = "some_10")] #[nserde(default_with = "mw_MNOptionVecString_10")] pub f10: Option<Vec<String>>,
    #[nserde(serialize_none_as_null)] #[nserde(default)] pub f11: Option<Vec<String>>,
    #[nserde(default, rename = "Ren12")] pub f12: Option<Vec<String>>,
    #[nserde(serialize_none_as_null)] pub f13: Option<Vec<String>>,
    #[nserde(rename = "type14")] pub f14: Option<Vec<String>>,
    #[nserde(skip)] pub f15: Option<Vec<String>>,
    #[nserde(rename = "some_16", serialize_none_as_null)] pub f16: Option<Vec<String>>,
    #[nserde(default = r#"vec![String::from("a\n")]"#)] pub f17: Option<Vec<String>>,
    #[nserde(default = r#"vec![String::from("a\n")]"#)] #[nserde(skip)] pub f18: Option<Vec<String>>,
    pub f19: Option<Vec<String>>,
    #[nserde(skip, default, rename = "type20")] pub f20: Option<Vec<String>>,
}
impl Subject for MNOptionVecString  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MNOptionVecString", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "Ren0", ron: "Ren0", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MNOptionVecString_2().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "some_4", ron: "some_4", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MNOptionVecString_5().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MNOptionVecString_9().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "some_10", ron: "some_10", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MNOptionVecString_10().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "Ren12", ron: "Ren12", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "f15", ron: "f15", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "some_16", ron: "some_16", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "f17", ron: "f17", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "f18", ron: "f18", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "f19", ron: "f19", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "type20", ron: "type20", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MNOptionVecString { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MNOptionVecString_2() -> Option<Vec<String>> { <Option<Vec<String>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<String>>>(2118)) }
fn mw_MNOptionVecString_5() -> Option<Vec<String>> { <Option<Vec<String>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<String>>>(2121)) }
fn mw_MNOptionVecString_9() -> Option<Vec<String>> { <Option<Vec<String>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<String>>>(2125)) }
fn mw_MNOptionVecString_10() -> Option<Vec<String>> { <Option<Vec<String>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<String>>>(2126)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default, serialize_none_as_null)]
pub struct MBOptionVecString {
    #[nserde(serialize_none_as_null)] pub f0: Option<Vec<String>>,
    #[nserde(default = r#"vec![String::from("a\n")]"#)] pub f1: Option<Vec<String>>,
    #[nserde(skip)] pub f2: Option<Vec<String>>,
    #[nserde(rename = "N3")] #[nserde(default)] #[nserde(skip)] pub f3: Option<Vec<String>>,
    #[nserde(rename = "some_4")] #[nserde(serialize_none_as_null)] pub f4: Option<Vec<String>>,
    #[nserde(default)] pub f5: Option<Vec<String>>,
    #[nserde(rename = "Ren6")] pub f6: Option<Vec<String>>,
    pub f7: Option<Vec<String>>,
    #[nserde(serialize_none_as_null)] #[nserde(default)] pub f8: Option<Vec<String>>,
    #[nserde(default)] #[nserde(skip)] pub f9: Option<Vec<String>>,
    #[nserde(skip)] #[nserde(rename = "some_10")] #[nserde(default = r#"vec![String::from("a\n")]"#)] pub f10: Option<Vec<String>>,
    #[nserde(skip)] #[nserde(rename = "_11")] pub f11: Option<Vec<String>>,
    #[nserde(default_with = "mw_MBOptionVecString_12")] pub f12: Option<Vec<String>>,
    #[nserde(default_with = "mw_MBOptionVecString_13", rename = "ключ_13")] pub f13: Option<Vec<String>>,
    #[nserde(rename = "type14", serialize_none_as_null, default = r#"vec![String::from("a\n")]"#)] pub f14: Option<Vec<String>>,
    #[nserde(default = r#"vec![String::from("a\n")]"#, skip)] pub f15: Option<Vec<String>>,
    #[nserde(rename = "some_16", default)] pub f16: Option<Vec<String>>,
    #[nserde(skip, default_with = "mw_MBOptionVecString_17")] pub f17: Option<Vec<String>>,
    #[nserde(default = r#"vec![String::from("a\n")]"#)] #[nserde(rename = "Ren18")] pub f18: Option<Vec<String>>,
    #[nserde(default = r#"vec![String::from("a\n")]"#)] #[nserde(serialize_none_as_null)] pub f19: Option<Vec<String>>,
    #[nserde(serialize_none_as_null, default_with = "mw_MBOptionVecString_20")] pub f20: Option<Vec<String>>,
}
impl Subject for MBOptionVecString  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MBOptionVecString", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "some_4", ron: "some_4", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "some_10", ron: "some_10", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "_11", ron: "_11", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MBOptionVecString_12().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "ключ_13", ron: "ключ_13", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MBOptionVecString_13().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "f15", ron: "f15", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "some_16", ron: "some_16", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "f17", ron: "f17", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MBOptionVecString_17().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "f19", ron: "f19", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "f20", ron: "f20", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MBOptionVecString_20().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MBOptionVecString { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MBOptionVecString_12() -> Option<Vec<String>> { <Option<Vec<String>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<String>>>(2159)) }
fn mw_MBOptionVecString_13() -> Option<Vec<String>> { <Option<Vec<String>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<String>>>(2160)) }
fn mw_MBOptionVecString_17() -> Option<Vec<String>> { <Option<Vec<String>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<String>>>(2164)) }
fn mw_MBOptionVecString_20() -> Option<Vec<String>> { <Option<Vec<String>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<String>>>(2167)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum MEOptionVecString {
    V0 { f0: Option<Vec<String>>, f1: String, #[nserde(default, rename = "type2", skip)] f2: String },
    V1 { f4: Option<Vec<Option<u8>>>, #[nserde(default = "vec![None, Some(1)]")] #[nserde(rename = "_5")] #[nserde(skip)] f5: Option<Vec<Option<u8>>>, #[nserde(rename = "N3")] f3: Option<Vec<String>> },
    V2 { f7: Option<String>, #[nserde(default)] f6: Option<Vec<String>>, #[nserde(skip)] #[nserde(rename = "type8")] f8: Option<String> },
    V3 { #[nserde(default = r#"vec![String::from("a\n")]"#)] f9: Option<Vec<String>>, #[nserde(default)] #[nserde(rename = "_11")] #[nserde(skip)] f11: String },
    V4 { #[nserde(default_with = "mw_MEOptionVecString_12")] f12: Option<Vec<String>>, #[nserde(skip)] f14: Vec<String>, f13: Vec<String> },
    V5 { #[nserde(default_with = "mw_MEOptionVecString_17")] #[nserde(skip)] f17: u8, #[nserde(skip)] f15: Option<Vec<String>>, f16: u8 },
    V6 { #[nserde(rename = "Ren18", default)] f18: Option<Vec<String>>, #[nserde(skip)] #[nserde(rename = "type20")] f20: String, f19: String },
    V7 { #[nserde(default = "MKind::C { a: None }")] f23: Option<MKind>, #[nserde(default = r#"vec![String::from("a\n")]"#, rename = "N21")] f21: Option<Vec<String>> },
    V8 { #[nserde(rename = "Ren24")] #[nserde(default_with = "mw_MEOptionVecString_24")] f24: Option<Vec<String>>, #[nserde(rename = "type26", default_with = "mw_MEOptionVecString_26")] f26: Option<MSmall> },
    V9 { f28: i64, #[nserde(rename = "N27")] #[nserde(skip)] f27: Option<Vec<String>>, f29: i64 },
    V10 { #[nserde(default)] #[nserde(skip)] f30: Option<Vec<String>>, #[nserde(default, rename = "type32")] f32: bool, f31: bool },
    V11 { #[nserde(default = r#"vec![String::from("a\n")]"#, skip)] f33: Option<Vec<String>>, #[nserde(skip)] #[nserde(default = "MKind::C { a: None }")] f35: Option<MKind>, f34: Option<MKind> },
    V12 { #[nserde(skip)] #[nserde(default_with = "mw_MEOptionVecString_36")] f36: Option<Vec<String>>, f37: Vec<String>, #[nserde(rename = "type38", skip, default = "vec![String::from(\"a\\n\")]")] f38: Vec<String> },
    V13 { #[nserde(default = 7)] f41: Option<u8>, #[nserde(skip, rename = "N39", default)] f39: Option<Vec<String>>, f40: Option<u8> },
    V14 { f43: Option<MKind>, #[nserde(skip, default)] f44: Option<MKind>, #[nserde(skip, default = r#"vec![String::from("a\n")]"#, rename = "Ren42")] f42: Option<Vec<String>> },
    V15 { #[nserde(serialize_none_as_null)] f45: Option<Vec<String>>, f47: Option<String>, f46: Option<String> },
    V16 { #[nserde(default = "MSmall { x: 9, y: Some(true) }")] f50: Option<MSmall>, f49: Option<MSmall>, #[nserde(serialize_none_as_null, rename = "Ren48")] f48: Option<Vec<String>> },
    V17 { #[nserde(default = "MSmall { x: 9, y: Some(true) }", rename = "_53", skip)] f53: Option<MSmall>, #[nserde(default, serialize_none_as_null)] f51: Option<Vec<String>>, f52: Option<MSmall> },
    V18 { #[nserde(rename = "type56")] f56: Option<u8>, f55: Option<u8>, #[nserde(serialize_none_as_null)] #[nserde(default = r#"vec![String::from("a\n")]"#)] f54: Option<Vec<String>> },
    V19 { f58: Option<MKind>, #[nserde(default_with = "mw_MEOptionVecString_57", serialize_none_as_null)] f57: Option<Vec<String>>, f59: Option<MKind> },
    V20 { #[nserde(skip)] f62: Option<MSmall>, #[nserde(serialize_none_as_null, rename = "Ren60", default = r#"vec![String::from("a\n")]"#)] f60: Option<Vec<String>>, f61: Option<MSmall> },
}
impl Subject for MEOptionVecString {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "MEOptionVecString", variants: &[VariantDef { name: "V0", json: "V0", kind: Kind::Named, fields: &[FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f1", json: "f1", ron: "f1", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f2", json: "type2", ron: "type2", ty: <String as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V1", json: "V1", kind: Kind::Named, fields: &[FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f5", json: "_5", ron: "_5", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }] }, VariantDef { name: "V2", json: "V2", kind: Kind::Named, fields: &[FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f8", json: "type8", ron: "type8", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }] }, VariantDef { name: "V3", json: "V3", kind: Kind::Named, fields: &[FieldDef { name: "f9", json: "f9", ron: "f9", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f11", json: "_11", ron: "_11", ty: <String as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V4", json: "V4", kind: Kind::Named, fields: &[FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionVecString_12().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f14", json: "f14", ron: "f14", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }] }, VariantDef { name: "V5", json: "V5", kind: Kind::Named, fields: &[FieldDef { name: "f17", json: "f17", ron: "f17", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEOptionVecString_17().to_val()), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f15", json: "f15", ron: "f15", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f16", json: "f16", ron: "f16", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }] }, VariantDef { name: "V6", json: "V6", kind: Kind::Named, fields: &[FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f20", json: "type20", ron: "type20", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f19", json: "f19", ron: "f19", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V7", json: "V7", kind: Kind::Named, fields: &[FieldDef { name: "f23", json: "f23", ron: "f23", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f21", json: "N21", ron: "N21", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }] }, VariantDef { name: "V8", json: "V8", kind: Kind::Named, fields: &[FieldDef { name: "f24", json: "Ren24", ron: "Ren24", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionVecString_24().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f26", json: "type26", ron: "type26", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionVecString_26().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }] }, VariantDef { name: "V9", json: "V9", kind: Kind::Named, fields: &[FieldDef { name: "f28", json: "f28", ron: "f28", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f27", json: "N27", ron: "N27", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f29", json: "f29", ron: "f29", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }] }, VariantDef { name: "V10", json: "V10", kind: Kind::Named, fields: &[FieldDef { name: "f30", json: "f30", ron: "f30", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f32", json: "type32", ron: "type32", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f31", json: "f31", ron: "f31", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] }, VariantDef { name: "V11", json: "V11", kind: Kind::Named, fields: &[FieldDef { name: "f33", json: "f33", ron: "f33", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f35", json: "f35", ron: "f35", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f34", json: "f34", ron: "f34", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }] }, VariantDef { name: "V12", json: "V12", kind: Kind::Named, fields: &[FieldDef { name: "f36", json: "f36", ron: "f36", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEOptionVecString_36().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f37", json: "f37", ron: "f37", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f38", json: "type38", ron: "type38", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Vec<String> = vec![String::from("a\n")]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }] }, VariantDef { name: "V13", json: "V13", kind: Kind::Named, fields: &[FieldDef { name: "f41", json: "f41", ron: "f41", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }, FieldDef { name: "f39", json: "N39", ron: "N39", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f40", json: "f40", ron: "f40", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] }, VariantDef { name: "V14", json: "V14", kind: Kind::Named, fields: &[FieldDef { name: "f43", json: "f43", ron: "f43", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f44", json: "f44", ron: "f44", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f42", json: "Ren42", ron: "Ren42", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }] }, VariantDef { name: "V15", json: "V15", kind: Kind::Named, fields: &[FieldDef { name: "f45", json: "f45", ron: "f45", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f47", json: "f47", ron: "f47", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f46", json: "f46", ron: "f46", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }] }, VariantDef { name: "V16", json: "V16", kind: Kind::Named, fields: &[FieldDef { name: "f50", json: "f50", ron: "f50", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }, FieldDef { name: "f49", json: "f49", ron: "f49", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }, FieldDef { name: "f48", json: "Ren48", ron: "Ren48", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }] }, VariantDef { name: "V17", json: "V17", kind: Kind::Named, fields: &[FieldDef { name: "f53", json: "_53", ron: "_53", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }, FieldDef { name: "f51", json: "f51", ron: "f51", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f52", json: "f52", ron: "f52", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }] }, VariantDef { name: "V18", json: "V18", kind: Kind::Named, fields: &[FieldDef { name: "f56", json: "type56", ron: "type56", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }, FieldDef { name: "f55", json: "f55", ron: "f55", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }, FieldDef { name: "f54", json: "f54", ron: "f54", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }] }, VariantDef { name: "V19", json: "V19", kind: Kind::Named, fields: &[FieldDef { name: "f58", json: "f58", ron: "f58", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f57", json: "f57", ron: "f57", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionVecString_57().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f59", json: "f59", ron: "f59", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }] }, VariantDef { name: "V20", json: "V20", kind: Kind::Named, fields: &[FieldDef { name: "f62", json: "f62", ron: "f62", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }, FieldDef { name: "f60", json: "Ren60", ron: "Ren60", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f61", json: "f61", ron: "f61", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::V0 { f0: Subject::from_val(&x_[0]), f1: Subject::from_val(&x_[1]), f2: Subject::from_val(&x_[2]) }, 1 => Self::V1 { f4: Subject::from_val(&x_[0]), f5: Subject::from_val(&x_[1]), f3: Subject::from_val(&x_[2]) }, 2 => Self::V2 { f7: Subject::from_val(&x_[0]), f6: Subject::from_val(&x_[1]), f8: Subject::from_val(&x_[2]) }, 3 => Self::V3 { f9: Subject::from_val(&x_[0]), f11: Subject::from_val(&x_[1]) }, 4 => Self::V4 { f12: Subject::from_val(&x_[0]), f14: Subject::from_val(&x_[1]), f13: Subject::from_val(&x_[2]) }, 5 => Self::V5 { f17: Subject::from_val(&x_[0]), f15: Subject::from_val(&x_[1]), f16: Subject::from_val(&x_[2]) }, 6 => Self::V6 { f18: Subject::from_val(&x_[0]), f20: Subject::from_val(&x_[1]), f19: Subject::from_val(&x_[2]) }, 7 => Self::V7 { f23: Subject::from_val(&x_[0]), f21: Subject::from_val(&x_[1]) }, 8 => Self::V8 { f24: Subject::from_val(&x_[0]), f26: Subject::from_val(&x_[1]) }, 9 => Self::V9 { f28: Subject::from_val(&x_[0]), f27: Subject::from_val(&x_[1]), f29: Subject::from_val(&x_[2]) }, 10 => Self::V10 { f30: Subject::from_val(&x_[0]), f32: Subject::from_val(&x_[1]), f31: Subject::from_val(&x_[2]) }, 11 => Self::V11 { f33: Subject::from_val(&x_[0]), f35: Subject::from_val(&x_[1]), f34: Subject::from_val(&x_[2]) }, 12 => Self::V12 { f36: Subject::from_val(&x_[0]), f37: Subject::from_val(&x_[1]), f38: Subject::from_val(&x_[2]) }, 13 => Self::V13 { f41: Subject::from_val(&x_[0]), f39: Subject::from_val(&x_[1]), f40: Subject::from_val(&x_[2]) }, 14 => Self::V14 { f43: Subject::from_val(&x_[0]), f44: Subject::from_val(&x_[1]), f42: Subject::from_val(&x_[2]) }, 15 => Self::V15 { f45: Subject::from_val(&x_[0]), f47: Subject::from_val(&x_[1]), f46: Subject::from_val(&x_[2]) }, 16 => Self::V16 { f50: Subject::from_val(&x_[0]), f49: Subject::from_val(&x_[1]), f48: Subject::from_val(&x_[2]) }, 17 => Self::V17 { f53: Subject::from_val(&x_[0]), f51: Subject::from_val(&x_[1]), f52: Subject::from_val(&x_[2]) }, 18 => Self::V18 { f56: Subject::from_val(&x_[0]), f55: Subject::from_val(&x_[1]), f54: Subject::from_val(&x_[2]) }, 19 => Self::V19 { f58: Subject::from_val(&x_[0]), f57: Subject::from_val(&x_[1]), f59: Subject::from_val(&x_[2]) }, 20 => Self::V20 { f62: Subject::from_val(&x_[0]), f60: Subject::from_val(&x_[1]), f61: Subject::from_val(&x_[2]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::V0 { f0: b0, f1: b1, f2: b2 } => Val::Enum(0, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V1 { f4: b0, f5: b1, f3: b2 } => Val::Enum(1, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V2 { f7: b0, f6: b1, f8: b2 } => Val::Enum(2, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V3 { f9: b0, f11: b1 } => Val::Enum(3, vec![b0.to_val(), b1.to_val()]), Self::V4 { f12: b0, f14: b1, f13: b2 } => Val::Enum(4, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V5 { f17: b0, f15: b1, f16: b2 } => Val::Enum(5, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V6 { f18: b0, f20: b1, f19: b2 } => Val::Enum(6, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V7 { f23: b0, f21: b1 } => Val::Enum(7, vec![b0.to_val(), b1.to_val()]), Self::V8 { f24: b0, f26: b1 } => Val::Enum(8, vec![b0.to_val(), b1.to_val()]), Self::V9 { f28: b0, f27: b1, f29: b2 } => Val::Enum(9, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V10 { f30: b0, f32: b1, f31: b2 } => Val::Enum(10, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V11 { f33: b0, f35: b1, f34: b2 } => Val::Enum(11, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V12 { f36: b0, f37: b1, f38: b2 } => Val::Enum(12, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V13 { f41: b0, f39: b1, f40: b2 } => Val::Enum(13, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V14 { f43: b0, f44: b1, f42: b2 } => Val::Enum(14, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V15 { f45: b0, f47: b1, f46: b2 } => Val::Enum(15, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V16 { f50: b0, f49: b1, f48: b2 } => Val::Enum(16, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V17 { f53: b0, f51: b1, f52: b2 } => Val::Enum(17, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V18 { f56: b0, f55: b1, f54: b2 } => Val::Enum(18, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V19 { f58: b0, f57: b1, f59: b2 } => Val::Enum(19, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V20 { f62: b0, f60: b1, f61: b2 } => Val::Enum(20, vec![b0.to_val(), b1.to_val(), b2.to_val()]), } }
}
fn mw_MEOptionVecString_12() -> Option<Vec<String>> { <Option<Vec<String>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<String>>>(2190)) }
fn mw_MEOptionVecString_17() -> u8 { <u8 as Subject>::from_val(&vcore::gen::sample::<u8>(2195)) }
fn mw_MEOptionVecString_24() -> Option<Vec<String>> { <Option<Vec<String>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<String>>>(2202)) }
fn mw_MEOptionVecString_26() -> Option<MSmall> { <Option<MSmall> as Subject>::from_val(&vcore::gen::sample::<Option<MSmall>>(2204)) }
fn mw_MEOptionVecString_36() -> Option<Vec<String>> { <Option<Vec<String>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<String>>>(2214)) }
fn mw_MEOptionVecString_57() -> Option<Vec<String>> { <Option<Vec<String>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<String>>>(2235)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct MSVecu16 {
    #[nserde(default_with = "mw_MSVecu16_0")] pub f0: Vec<u16>,
    #[nserde(default)] #[nserde(skip)] pub f1: Vec<u16>,
    #[nserde(default)] pub f2: Vec<u16>,
    #[nserde(skip)] #[nserde(default_with = "mw_MSVecu16_3")] pub f3: Vec<u16>,
    #[nserde(skip)] #[nserde(default = "vec![1, 2]")] pub f4: Vec<u16>,
    #[nserde(default_with = "mw_MSVecu16_5")] #[nserde(rename = "_5")] pub f5: Vec<u16>,
    pub f6: Vec<u16>,
    #[nserde(rename = "ключ_7")] #[nserde(default)] pub f7: Vec<u16>,
    #[nserde(rename = "type8", default = "vec![1, 2]")] pub f8: Vec<u16>,
    #[nserde(default = "vec![1, 2]")] pub f9: Vec<u16>,
    #[nserde(skip)] pub f10: Vec<u16>,
    #[nserde(skip)] #[nserde(rename = "_11")] #[nserde(default = "vec![1, 2]")] pub f11: Vec<u16>,
    #[nserde(rename = "Ren12", skip)] pub f12: Vec<u16>,
    #[nserde(default)] #[nserde(rename = "ключ_13")] #[nserde(skip)] pub f13: Vec<u16>,
    #[nserde(rename = "type14")] pub f14: Vec<u16>,
}
impl Subject for MSVecu16  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MSVecu16", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSVecu16_0().to_val()), is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Vec<u16> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "f3", ron: "f3", ty: <Vec<u16> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MSVecu16_3().to_val()), is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Vec<u16> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Vec<u16> = vec![1, 2]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "_5", ron: "_5", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSVecu16_5().to_val()), is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "ключ_7", ron: "ключ_7", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "type8", ron: "type8", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Vec<u16> = vec![1, 2]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Vec<u16> = vec![1, 2]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Vec<u16> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "_11", ron: "_11", ty: <Vec<u16> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Vec<u16> = vec![1, 2]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "Ren12", ron: "Ren12", ty: <Vec<u16> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "ключ_13", ron: "ключ_13", ty: <Vec<u16> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MSVecu16 { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val()]) }
}
fn mw_MSVecu16_0() -> Vec<u16> { <Vec<u16> as Subject>::from_val(&vcore::gen::sample::<Vec<u16>>(2209)) }
fn mw_MSVecu16_3() -> Vec<u16> { <Vec<u16> as Subject>::from_val(&vcore::gen::sample::<Vec<u16>>(2212)) }
fn mw_MSVecu16_5() -> Vec<u16> { <Vec<u16> as Subject>::from_val(&vcore::gen::sample::<Vec<u16>>(2214)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default)]
pub struct MDVecu16 {
    #[nserde(skip)] pub f0: Vec<u16>,
    #[nserde(rename = "ключ_1")] #[nserde(default = "vec![1, 2]")] #[nserde(skip)] pub f1: Vec<u16>,
    #[nserde(default_with = "mw_MDVecu16_2")] pub f2: Vec<u16>,
    #[nserde(rename = "N3")] #[nserde(default)] #[nserde(skip)] pub f3: Vec<u16>,
    #[nserde(skip, rename = "some_4")] pub f4: Vec<u16>,
    #[nserde(default, skip)] pub f5: Vec<u16>,
    #[nserde(default_with = "mw_MDVecu16_6", skip)] pub f6: Vec<u16>,
    #[nserde(rename = "ключ_7")] #[nserde(default_with = "mw_MDVecu16_7")] pub f7: Vec<u16>,
    #[nserde(default)] pub f8: Vec<u16>,
    #[nserde(rename = "N9")] pub f9: Vec<u16>,
    #[nserde(default = "vec![1, 2]")] pub f10: Vec<u16>,
    pub f11: Vec<u16>,
    #[nserde(rename = "Ren12")] #[nserde(default = "vec![1, 2]")] pub f12: Vec<u16>,
    #[nserde(default = "vec![1, 2]")] #[nserde(skip)] pub f13: Vec<u16>,
    #[nserde(default)] #[nserde(rename = "type14")] pub f14: Vec<u16>,
}
impl Subject for MDVecu16  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MDVecu16", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Vec<u16> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <Vec<u16> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Vec<u16> = vec![1, 2]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDVecu16_2().to_val()), is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Vec<u16> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "some_4", ron: "some_4", ty: <Vec<u16> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <Vec<u16> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Vec<u16> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MDVecu16_6().to_val()), is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "ключ_7", ron: "ключ_7", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDVecu16_7().to_val()), is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "N9", ron: "N9", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Vec<u16> = vec![1, 2]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "Ren12", ron: "Ren12", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Vec<u16> = vec![1, 2]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Vec<u16> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Vec<u16> = vec![1, 2]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MDVecu16 { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val()]) }
}
fn mw_MDVecu16_2() -> Vec<u16> { <Vec<u16> as Subject>::from_val(&vcore::gen::sample::<Vec<u16>>(2242)) }
fn mw_MDVecu16_6() -> Vec<u16> { <Vec<u16> as Subject>::from_val(&vcore::gen::sample::<Vec<u16>>(2246)) }
fn mw_MDVecu16_7() -> Vec<u16> { <Vec<u16> as Subject>::from_val(&vcore::gen::sample::<Vec<u16>>(2247)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum MEVecu16 {
    V0 { f1: String, f0: Vec<u16> },
    V1 { f4: Option<String> },
    V2 { #[nserde(default)] #[nserde(rename = "type8")] f8: (u8, String), #[nserde(default)] f6: Vec<u16> },
    V3 { #[nserde(default = "vec![1, 2]")] f9: Vec<u16>, #[nserde(default = "a \"b\" {}", skip)] f11: String, f10: String },
    V4 { f13: (u8, String), #[nserde(skip)] #[nserde(rename = "type14")] f14: (u8, String), #[nserde(default_with = "mw_MEVecu16_12")] f12: Vec<u16> },
    V5 { f16: String, #[nserde(skip)] f15: Vec<u16> },
    V6 { #[nserde(default = 1.5)] f20: f32, #[nserde(default, rename = "Ren18")] f18: Vec<u16>, f19: f32 },
    V7 { #[nserde(default = "vec![1, 2]", rename = "N21")] f21: Vec<u16>, f22: bool, #[nserde(skip)] f23: bool },
    V8 { #[nserde(default_with = "mw_MEVecu16_24")] #[nserde(rename = "Ren24")] f24: Vec<u16>, f25: Vec<String> },
    V9 { #[nserde(default)] f29: MKind, f28: MKind, #[nserde(skip, rename = "N27")] f27: Vec<u16> },
    V10 { #[nserde(default)] #[nserde(skip)] f30: Vec<u16>, #[nserde(default = "vec![1, 2]")] #[nserde(skip)] f32: Vec<u16>, f31: Vec<u16> },
    V11 { f34: bool, #[nserde(skip)] #[nserde(default = "vec![1, 2]")] f33: Vec<u16>, #[nserde(default_with = "mw_MEVecu16_35")] f35: bool },
    V12 { #[nserde(default)] f38: i64, #[nserde(default_with = "mw_MEVecu16_36")] #[nserde(skip)] f36: Vec<u16>, f37: i64 },
    V13 { #[nserde(skip, default)] f41: String, f40: String, #[nserde(skip, rename = "N39", default)] f39: Vec<u16> },
    V14 { #[nserde(rename = "Ren42", skip, default = "vec![1, 2]")] f42: Vec<u16>, f43: String, #[nserde(rename = "type44")] f44: String },
}
impl Subject for MEVecu16 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "MEVecu16", variants: &[VariantDef { name: "V0", json: "V0", kind: Kind::Named, fields: &[FieldDef { name: "f1", json: "f1", ron: "f1", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }] }, VariantDef { name: "V1", json: "V1", kind: Kind::Named, fields: &[FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }] }, VariantDef { name: "V2", json: "V2", kind: Kind::Named, fields: &[FieldDef { name: "f8", json: "type8", ron: "type8", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }, FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }] }, VariantDef { name: "V3", json: "V3", kind: Kind::Named, fields: &[FieldDef { name: "f9", json: "f9", ron: "f9", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Vec<u16> = vec![1, 2]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }, FieldDef { name: "f11", json: "f11", ron: "f11", ty: <String as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: String = String::from("a \"b\" {}"); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f10", json: "f10", ron: "f10", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V4", json: "V4", kind: Kind::Named, fields: &[FieldDef { name: "f13", json: "f13", ron: "f13", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }, FieldDef { name: "f14", json: "type14", ron: "type14", ty: <(u8, String) as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }, FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEVecu16_12().to_val()), is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }] }, VariantDef { name: "V5", json: "V5", kind: Kind::Named, fields: &[FieldDef { name: "f16", json: "f16", ron: "f16", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f15", json: "f15", ron: "f15", ty: <Vec<u16> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }] }, VariantDef { name: "V6", json: "V6", kind: Kind::Named, fields: &[FieldDef { name: "f20", json: "f20", ron: "f20", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: f32 = 1.5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }, FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }, FieldDef { name: "f19", json: "f19", ron: "f19", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }] }, VariantDef { name: "V7", json: "V7", kind: Kind::Named, fields: &[FieldDef { name: "f21", json: "N21", ron: "N21", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Vec<u16> = vec![1, 2]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }, FieldDef { name: "f22", json: "f22", ron: "f22", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f23", json: "f23", ron: "f23", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] }, VariantDef { name: "V8", json: "V8", kind: Kind::Named, fields: &[FieldDef { name: "f24", json: "Ren24", ron: "Ren24", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEVecu16_24().to_val()), is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }, FieldDef { name: "f25", json: "f25", ron: "f25", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }] }, VariantDef { name: "V9", json: "V9", kind: Kind::Named, fields: &[FieldDef { name: "f29", json: "f29", ron: "f29", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }, FieldDef { name: "f28", json: "f28", ron: "f28", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }, FieldDef { name: "f27", json: "N27", ron: "N27", ty: <Vec<u16> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }] }, VariantDef { name: "V10", json: "V10", kind: Kind::Named, fields: &[FieldDef { name: "f30", json: "f30", ron: "f30", ty: <Vec<u16> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }, FieldDef { name: "f32", json: "f32", ron: "f32", ty: <Vec<u16> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Vec<u16> = vec![1, 2]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }, FieldDef { name: "f31", json: "f31", ron: "f31", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }] }, VariantDef { name: "V11", json: "V11", kind: Kind::Named, fields: &[FieldDef { name: "f34", json: "f34", ron: "f34", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f33", json: "f33", ron: "f33", ty: <Vec<u16> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Vec<u16> = vec![1, 2]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }, FieldDef { name: "f35", json: "f35", ron: "f35", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEVecu16_35().to_val()), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] }, VariantDef { name: "V12", json: "V12", kind: Kind::Named, fields: &[FieldDef { name: "f38", json: "f38", ron: "f38", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f36", json: "f36", ron: "f36", ty: <Vec<u16> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEVecu16_36().to_val()), is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }, FieldDef { name: "f37", json: "f37", ron: "f37", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }] }, VariantDef { name: "V13", json: "V13", kind: Kind::Named, fields: &[FieldDef { name: "f41", json: "f41", ron: "f41", ty: <String as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f40", json: "f40", ron: "f40", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f39", json: "N39", ron: "N39", ty: <Vec<u16> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }] }, VariantDef { name: "V14", json: "V14", kind: Kind::Named, fields: &[FieldDef { name: "f42", json: "Ren42", ron: "Ren42", ty: <Vec<u16> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Vec<u16> = vec![1, 2]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }, FieldDef { name: "f43", json: "f43", ron: "f43", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f44", json: "type44", ron: "type44", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::V0 { f1: Subject::from_val(&x_[0]), f0: Subject::from_val(&x_[1]) }, 1 => Self::V1 { f4: Subject::from_val(&x_[0]) }, 2 => Self::V2 { f8: Subject::from_val(&x_[0]), f6: Subject::from_val(&x_[1]) }, 3 => Self::V3 { f9: Subject::from_val(&x_[0]), f11: Subject::from_val(&x_[1]), f10: Subject::from_val(&x_[2]) }, 4 => Self::V4 { f13: Subject::from_val(&x_[0]), f14: Subject::from_val(&x_[1]), f12: Subject::from_val(&x_[2]) }, 5 => Self::V5 { f16: Subject::from_val(&x_[0]), f15: Subject::from_val(&x_[1]) }, 6 => Self::V6 { f20: Subject::from_val(&x_[0]), f18: Subject::from_val(&x_[1]), f19: Subject::from_val(&x_[2]) }, 7 => Self::V7 { f21: Subject::from_val(&x_[0]), f22: Subject::from_val(&x_[1]), f23: Subject::from_val(&x_[2]) }, 8 => Self::V8 { f24: Subject::from_val(&x_[0]), f25: Subject::from_val(&x_[1]) }, 9 => Self::V9 { f29: Subject::from_val(&x_[0]), f28: Subject::from_val(&x_[1]), f27: Subject::from_val(&x_[2]) }, 10 => Self::V10 { f30: Subject::from_val(&x_[0]), f32: Subject::from_val(&x_[1]), f31: Subject::from_val(&x_[2]) }, 11 => Self::V11 { f34: Subject::from_val(&x_[0]), f33: Subject::from_val(&x_[1]), f35: Subject::from_val(&x_[2]) }, 12 => Self::V12 { f38: Subject::from_val(&x_[0]), f36: Subject::from_val(&x_[1]), f37: Subject::from_val(&x_[2]) }, 13 => Self::V13 { f41: Subject::from_val(&x_[0]), f40: Subject::from_val(&x_[1]), f39: Subject::from_val(&x_[2]) }, 14 => Self::V14 { f42: Subject::from_val(&x_[0]), f43: Subject::from_val(&x_[1]), f44: Subject::from_val(&x_[2]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::V0 { f1: b0, f0: b1 } => Val::Enum(0, vec![b0.to_val(), b1.to_val()]), Self::V1 { f4: b0 } => Val::Enum(1, vec![b0.to_val()]), Self::V2 { f8: b0, f6: b1 } => Val::Enum(2, vec![b0.to_val(), b1.to_val()]), Self::V3 { f9: b0, f11: b1, f10: b2 } => Val::Enum(3, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V4 { f13: b0, f14: b1, f12: b2 } => Val::Enum(4, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V5 { f16: b0, f15: b1 } => Val::Enum(5, vec![b0.to_val(), b1.to_val()]), Self::V6 { f20: b0, f18: b1, f19: b2 } => Val::Enum(6, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V7 { f21: b0, f22: b1, f23: b2 } => Val::Enum(7, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V8 { f24: b0, f25: b1 } => Val::Enum(8, vec![b0.to_val(), b1.to_val()]), Self::V9 { f29: b0, f28: b1, f27: b2 } => Val::Enum(9, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V10 { f30: b0, f32: b1, f31: b2 } => Val::Enum(10, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V11 { f34: b0, f33: b1, f35: b2 } => Val::Enum(11, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V12 { f38: b0, f36: b1, f37: b2 } => Val::Enum(12, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V13 { f41: b0, f40: b1, f39: b2 } => Val::Enum(13, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V14 { f42: b0, f43: b1, f44: b2 } => Val::Enum(14, vec![b0.to_val(), b1.to_val(), b2.to_val()]), } }
}
fn mw_MEVecu16_12() -> Vec<u16> { <Vec<u16> as Subject>::from_val(&vcore::gen::sample::<Vec<u16>>(2283)) }
fn mw_MEVecu16_24() -> Vec<u16> { <Vec<u16> as Subject>::from_val(&vcore::gen::sample::<Vec<u16>>(2295)) }
fn mw_MEVecu16_35() -> bool { <bool as Subject>::from_val(&vcore::gen::sample::<bool>(2306)) }
fn mw_MEVecu16_36() -> Vec<u16> { <Vec<u16> as Subject>::from_val(&vcore::gen::sample::<Vec<u16>>(2307)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct MSu8String {
    #[nserde(default_with = "mw_MSu8String_0")] pub f0: (u8, String),
    #[nserde(rename = "ключ_1", default = "(1, String::new())")] pub f1: (u8, String),
    #[nserde(default = "(1, String::new())", skip)] pub f2: (u8, String),
    #[nserde(skip)] pub f3: (u8, String),
    #[nserde(default_with = "mw_MSu8String_4")] #[nserde(rename = "some_4")] pub f4: (u8, String),
    #[nserde(default)] pub f5: (u8, String),
    #[nserde(default)] #[nserde(rename = "Ren6")] pub f6: (u8, String),
    #[nserde(default)] #[nserde(skip)] pub f7: (u8, String),
    #[nserde(rename = "type8")] pub f8: (u8, String),
    #[nserde(default = "(1, String::new())")] pub f9: (u8, String),
    pub f10: (u8, String),
    #[nserde(default_with = "mw_MSu8String_11", skip)] pub f11: (u8, String),
    #[nserde(rename = "Ren12", skip)] pub f12: (u8, String),
    #[nserde(default)] #[nserde(rename = "ключ_13")] #[nserde(skip)] pub f13: (u8, String),
    #[nserde(default = "(1, String::new())")] #[nserde(rename = "type14")] #[nserde(skip)] pub f14: (u8, String),
}
impl Subject for MSu8String  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MSu8String", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSu8String_0().to_val()), is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: (u8, String) = (1, String::new()); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <(u8, String) as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: (u8, String) = (1, String::new()); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "f3", ron: "f3", ty: <(u8, String) as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "some_4", ron: "some_4", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSu8String_4().to_val()), is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <(u8, String) as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "type8", ron: "type8", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: (u8, String) = (1, String::new()); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <(u8, String) as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MSu8String_11().to_val()), is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "Ren12", ron: "Ren12", ty: <(u8, String) as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "ключ_13", ron: "ключ_13", ty: <(u8, String) as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <(u8, String) as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: (u8, String) = (1, String::new()); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MSu8String { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val()]) }
}
fn mw_MSu8String_0() -> (u8, String) { <(u8, String) as Subject>::from_val(&vcore::gen::sample::<(u8, String)>(2302)) }
fn mw_MSu8String_4() -> (u8, String) { <(u8, String) as Subject>::from_val(&vcore::gen::sample::<(u8, String)>(2306)) }
fn mw_MSu8String_11() -> (u8, String) { <(u8, String) as Subject>::from_val(&vcore::gen::sample::<(u8, String)>(2313)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default)]
pub struct MDu8String {
    #[nserde(skip)] #[nserde(default)] pub f0: (u8, String),
    #[nserde(skip)] #[nserde(rename = "ключ_1")] #[nserde(default = "(1, String::new())")] pub f1: (u8, String),
    #[nserde(skip)] #[nserde(rename = "type2")] #[nserde(default)] pub f2: (u8, String),
    #[nserde(rename = "N3", default = "(1, String::new())")] pub f3: (u8, String),
    #[nserde(rename = "some_4")] pub f4: (u8, String),
    #[nserde(skip)] pub f5: (u8, String),
    #[nserde(default, rename = "Ren6")] pub f6: (u8, String),
    #[nserde(skip, rename = "ключ_7")] pub f7: (u8, String),
    #[nserde(default_with = "mw_MDu8String_8")] #[nserde(skip)] pub f8: (u8, String),
    #[nserde(default)] pub f9: (u8, String),
    #[nserde(default_with = "mw_MDu8String_10")] pub f10: (u8, String),
    #[nserde(rename = "_11", default_with = "mw_MDu8String_11")] pub f11: (u8, String),
    #[nserde(skip, default = "(1, String::new())")] pub f12: (u8, String),
    pub f13: (u8, String),
    #[nserde(default = "(1, String::new())")] pub f14: (u8, String),
}
impl Subject for MDu8String  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MDu8String", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <(u8, String) as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <(u8, String) as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: (u8, String) = (1, String::new()); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "type2", ron: "type2", ty: <(u8, String) as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: (u8, String) = (1, String::new()); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "some_4", ron: "some_4", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <(u8, String) as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "ключ_7", ron: "ключ_7", ty: <(u8, String) as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <(u8, String) as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MDu8String_8().to_val()), is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDu8String_10().to_val()), is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "_11", ron: "_11", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDu8String_11().to_val()), is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <(u8, String) as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: (u8, String) = (1, String::new()); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: (u8, String) = (1, String::new()); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MDu8String { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val()]) }
}
fn mw_MDu8String_8() -> (u8, String) { <(u8, String) as Subject>::from_val(&vcore::gen::sample::<(u8, String)>(2341)) }
fn mw_MDu8String_10() -> (u8, String) { <(u8, String) as Subject>::from_val(&vcore::gen::sample::<(u8, String)>(2343)) }
fn mw_MDu8String_11() -> (u8, String) { <(u8, String) as Subject>::from_val(&vcore::gen::sample::<(u8, String)>(2344)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum MEu8String {
    V0 { #[nserde(skip)] #[nserde(rename = "type2")] f2: String, f1: String, f0: (u8, String) },
    V1 { #[nserde(rename = "N3")] f3: (u8, String), #[nserde(skip, default)] f5: i16, f4: i16 },
    V2 { #[nserde(default = "true")] #[nserde(skip)] f8: bool, #[nserde(default)] f6: (u8, String) },
    V3 { #[nserde(default = "vec![String::from(\"a\\n\")]")] f11: Vec<String>, f10: Vec<String>, #[nserde(default = "(1, String::new())")] f9: (u8, String) },
    V4 { #[nserde(default_with = "mw_MEu8String_12")] f12: (u8, String), #[nserde(default)] f14: bool, f13: bool },
    V5 { f16: Vec<u16>, #[nserde(default_with = "mw_MEu8String_17")] f17: Vec<u16> },
    V6 { #[nserde(default, rename = "Ren18")] f18: (u8, String), f19: BTreeMap<String, u8> },
    V7 { #[nserde(rename = "_23")] #[nserde(default_with = "mw_MEu8String_23")] f23: MSmall, f22: MSmall, #[nserde(rename = "N21")] #[nserde(default = "(1, String::new())")] f21: (u8, String) },
    V8 { f25: Option<Vec<Option<u8>>>, #[nserde(rename = "type26")] f26: Option<Vec<Option<u8>>> },
    V9 { #[nserde(rename = "N27")] #[nserde(skip)] f27: (u8, String), f28: String, #[nserde(skip)] #[nserde(default)] f29: String },
    V10 { #[nserde(rename = "type32")] #[nserde(skip)] #[nserde(default)] f32: Option<Vec<String>>, f31: Option<Vec<String>>, #[nserde(default)] #[nserde(skip)] f30: (u8, String) },
    V11 { #[nserde(skip)] #[nserde(default = "(1, String::new())")] f33: (u8, String), f34: String, #[nserde(rename = "_35")] f35: String },
    V12 { f37: Option<f64> },
    V13 { #[nserde(skip, default, rename = "N39")] f39: (u8, String), #[nserde(default, rename = "_41")] f41: i16, f40: i16 },
    V14 { f43: Vec<u16>, #[nserde(rename = "type44")] #[nserde(default)] #[nserde(skip)] f44: Vec<u16>, #[nserde(default = "(1, String::new())", skip, rename = "Ren42")] f42: (u8, String) },
}
impl Subject for MEu8String {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "MEu8String", variants: &[VariantDef { name: "V0", json: "V0", kind: Kind::Named, fields: &[FieldDef { name: "f2", json: "type2", ron: "type2", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f1", json: "f1", ron: "f1", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f0", json: "f0", ron: "f0", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }] }, VariantDef { name: "V1", json: "V1", kind: Kind::Named, fields: &[FieldDef { name: "f3", json: "N3", ron: "N3", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }, FieldDef { name: "f5", json: "f5", ron: "f5", ty: <i16 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }, FieldDef { name: "f4", json: "f4", ron: "f4", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }] }, VariantDef { name: "V2", json: "V2", kind: Kind::Named, fields: &[FieldDef { name: "f8", json: "f8", ron: "f8", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: bool = true; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f6", json: "f6", ron: "f6", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }] }, VariantDef { name: "V3", json: "V3", kind: Kind::Named, fields: &[FieldDef { name: "f11", json: "f11", ron: "f11", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Vec<String> = vec![String::from("a\n")]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f9", json: "f9", ron: "f9", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: (u8, String) = (1, String::new()); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }] }, VariantDef { name: "V4", json: "V4", kind: Kind::Named, fields: &[FieldDef { name: "f12", json: "f12", ron: "f12", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEu8String_12().to_val()), is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }, FieldDef { name: "f14", json: "f14", ron: "f14", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f13", json: "f13", ron: "f13", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] }, VariantDef { name: "V5", json: "V5", kind: Kind::Named, fields: &[FieldDef { name: "f16", json: "f16", ron: "f16", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }, FieldDef { name: "f17", json: "f17", ron: "f17", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEu8String_17().to_val()), is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }] }, VariantDef { name: "V6", json: "V6", kind: Kind::Named, fields: &[FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }, FieldDef { name: "f19", json: "f19", ron: "f19", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }] }, VariantDef { name: "V7", json: "V7", kind: Kind::Named, fields: &[FieldDef { name: "f23", json: "_23", ron: "_23", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEu8String_23().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }, FieldDef { name: "f22", json: "f22", ron: "f22", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }, FieldDef { name: "f21", json: "N21", ron: "N21", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: (u8, String) = (1, String::new()); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }] }, VariantDef { name: "V8", json: "V8", kind: Kind::Named, fields: &[FieldDef { name: "f25", json: "f25", ron: "f25", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f26", json: "type26", ron: "type26", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }] }, VariantDef { name: "V9", json: "V9", kind: Kind::Named, fields: &[FieldDef { name: "f27", json: "N27", ron: "N27", ty: <(u8, String) as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }, FieldDef { name: "f28", json: "f28", ron: "f28", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f29", json: "f29", ron: "f29", ty: <String as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V10", json: "V10", kind: Kind::Named, fields: &[FieldDef { name: "f32", json: "type32", ron: "type32", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f31", json: "f31", ron: "f31", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f30", json: "f30", ron: "f30", ty: <(u8, String) as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }] }, VariantDef { name: "V11", json: "V11", kind: Kind::Named, fields: &[FieldDef { name: "f33", json: "f33", ron: "f33", ty: <(u8, String) as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: (u8, String) = (1, String::new()); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }, FieldDef { name: "f34", json: "f34", ron: "f34", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f35", json: "_35", ron: "_35", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V12", json: "V12", kind: Kind::Named, fields: &[FieldDef { name: "f37", json: "f37", ron: "f37", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }] }, VariantDef { name: "V13", json: "V13", kind: Kind::Named, fields: &[FieldDef { name: "f39", json: "N39", ron: "N39", ty: <(u8, String) as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }, FieldDef { name: "f41", json: "_41", ron: "_41", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }, FieldDef { name: "f40", json: "f40", ron: "f40", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }] }, VariantDef { name: "V14", json: "V14", kind: Kind::Named, fields: &[FieldDef { name: "f43", json: "f43", ron: "f43", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }, FieldDef { name: "f44", json: "type44", ron: "type44", ty: <Vec<u16> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }, FieldDef { name: "f42", json: "Ren42", ron: "Ren42", ty: <(u8, String) as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: (u8, String) = (1, String::new()); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::V0 { f2: Subject::from_val(&x_[0]), f1: Subject::from_val(&x_[1]), f0: Subject::from_val(&x_[2]) }, 1 => Self::V1 { f3: Subject::from_val(&x_[0]), f5: Subject::from_val(&x_[1]), f4: Subject::from_val(&x_[2]) }, 2 => Self::V2 { f8: Subject::from_val(&x_[0]), f6: Subject::from_val(&x_[1]) }, 3 => Self::V3 { f11: Subject::from_val(&x_[0]), f10: Subject::from_val(&x_[1]), f9: Subject::from_val(&x_[2]) }, 4 => Self::V4 { f12: Subject::from_val(&x_[0]), f14: Subject::from_val(&x_[1]), f13: Subject::from_val(&x_[2]) }, 5 => Self::V5 { f16: Subject::from_val(&x_[0]), f17: Subject::from_val(&x_[1]) }, 6 => Self::V6 { f18: Subject::from_val(&x_[0]), f19: Subject::from_val(&x_[1]) }, 7 => Self::V7 { f23: Subject::from_val(&x_[0]), f22: Subject::from_val(&x_[1]), f21: Subject::from_val(&x_[2]) }, 8 => Self::V8 { f25: Subject::from_val(&x_[0]), f26: Subject::from_val(&x_[1]) }, 9 => Self::V9 { f27: Subject::from_val(&x_[0]), f28: Subject::from_val(&x_[1]), f29: Subject::from_val(&x_[2]) }, 10 => Self::V10 { f32: Subject::from_val(&x_[0]), f31: Subject::from_val(&x_[1]), f30: Subject::from_val(&x_[2]) }, 11 => Self::V11 { f33: Subject::from_val(&x_[0]), f34: Subject::from_val(&x_[1]), f35: Subject::from_val(&x_[2]) }, 12 => Self::V12 { f37: Subject::from_val(&x_[0]) }, 13 => Self::V13 { f39: Subject::from_val(&x_[0]), f41: Subject::from_val(&x_[1]), f40: Subject::from_val(&x_[2]) }, 14 => Self::V14 { f43: Subject::from_val(&x_[0]), f44: Subject::from_val(&x_[1]), f42: Subject::from_val(&x_[2]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::V0 { f2: b0, f1: b1, f0: b2 } => Val::Enum(0, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V1 { f3: b0, f5: b1, f4: b2 } => Val::Enum(1, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V2 { f8: b0, f6: b1 } => Val::Enum(2, vec![b0.to_val(), b1.to_val()]), Self::V3 { f11: b0, f10: b1, f9: b2 } => Val::Enum(3, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V4 { f12: b0, f14: b1, f13: b2 } => Val::Enum(4, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V5 { f16: b0, f17: b1 } => Val::Enum(5, vec![b0.to_val(), b1.to_val()]), Self::V6 { f18: b0, f19: b1 } => Val::Enum(6, vec![b0.to_val(), b1.to_val()]), Self::V7 { f23: b0, f22: b1, f21: b2 } => Val::Enum(7, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V8 { f25: b0, f26: b1 } => Val::Enum(8, vec![b0.to_val(), b1.to_val()]), Self::V9 { f27: b0, f28: b1, f29: b2 } => Val::Enum(9, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V10 { f32: b0, f31: b1, f30: b2 } => Val::Enum(10, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V11 { f33: b0, f34: b1, f35: b2 } => Val::Enum(11, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V12 { f37: b0 } => Val::Enum(12, vec![b0.to_val()]), Self::V13 { f39: b0, f41: b1, f40: b2 } => Val::Enum(13, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V14 { f43: b0, f44: b1, f42: b2 } => Val::Enum(14, vec![b0.to_val(), b1.to_val(), b2.to_val()]), } }
}
fn mw_MEu8String_12() -> (u8, String) { <(u8, String) as Subject>::from_val(&vcore::gen::sample::<(u8, String)>(2376)) }
fn mw_MEu8String_17() -> Vec<u16> { <Vec<u16> as Subject>::from_val(&vcore::gen::sample::<Vec<u16>>(2381)) }
fn mw_MEu8String_23() -> MSmall { <MSmall as Subject>::from_val(&vcore::gen::sample::<MSmall>(2387)) }
fn mw_MEu8String_24() -> (u8, String) { <(u8, String) as Subject>::from_val(&vcore::gen::sample::<(u8, String)>(2388)) }
fn mw_MEu8String_36() -> (u8, String) { <(u8, String) as Subject>::from_val(&vcore::gen::sample::<(u8, String)>(2400)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct MSMSmall {
    #[nserde(default_with = "mw_MSMSmall_0")] #[nserde(skip)] pub f0: MSmall,
    #[nserde(rename = "ключ_1")] #[nserde(skip)] #[nserde(default)] pub f1: MSmall,
    #[nserde(default_with = "mw_MSMSmall_2")] pub f2: MSmall,
    #[nserde(skip, default = "MSmall { x: 3, y: None }")] pub f3: MSmall,
    #[nserde(default = "MSmall { x: 3, y: None }")] pub f4: MSmall,
    #[nserde(skip, default)] pub f5: MSmall,
    #[nserde(default_with = "mw_MSMSmall_6", rename = "Ren6")] pub f6: MSmall,
    #[nserde(rename = "ключ_7", skip, default = "MSmall { x: 3, y: None }")] pub f7: MSmall,
    #[nserde(rename = "type8", skip)] pub f8: MSmall,
    #[nserde(default)] pub f9: MSmall,
    pub f10: MSmall,
    #[nserde(rename = "_11", default = "MSmall { x: 3, y: None }")] pub f11: MSmall,
    #[nserde(rename = "Ren12")] pub f12: MSmall,
    #[nserde(skip)] pub f13: MSmall,
    #[nserde(default)] #[nserde(rename = "type14")] pub f14: MSmall,
}
impl Subject for MSMSmall  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MSMSmall", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MSMSmall_0().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSMSmall_2().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "f3", ron: "f3", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: MSmall = MSmall { x: 3, y: None }; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: MSmall = MSmall { x: 3, y: None }; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSMSmall_6().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "ключ_7", ron: "ключ_7", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: MSmall = MSmall { x: 3, y: None }; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "type8", ron: "type8", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "_11", ron: "_11", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: MSmall = MSmall { x: 3, y: None }; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "Ren12", ron: "Ren12", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MSMSmall { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val()]) }
}
fn mw_MSMSmall_0() -> MSmall { <MSmall as Subject>::from_val(&vcore::gen::sample::<MSmall>(2395)) }
fn mw_MSMSmall_2() -> MSmall { <MSmall as Subject>::from_val(&vcore::gen::sample::<MSmall>(2397)) }
fn mw_MSMSmall_6() -> MSmall { <MSmall as Subject>::from_val(&vcore::gen::sample::<MSmall>(2401)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default)]
pub struct MDMSmall {
    #[nserde(default = "MSmall { x: 3, y: None }", skip)] pub f0: MSmall,
    #[nserde(rename = "ключ_1")] #[nserde(default)] pub f1: MSmall,
    #[nserde(skip)] #[nserde(rename = "type2")] pub f2: MSmall,
    #[nserde(default)] pub f3: MSmall,
    #[nserde(default_with = "mw_MDMSmall_4")] pub f4: MSmall,
    #[nserde(default = "MSmall { x: 3, y: None }")] #[nserde(skip)] #[nserde(rename = "_5")] pub f5: MSmall,
    #[nserde(skip)] #[nserde(rename = "Ren6")] #[nserde(default)] pub f6: MSmall,
    #[nserde(rename = "ключ_7")] pub f7: MSmall,
    #[nserde(rename = "type8", default = "MSmall { x: 3, y: None }")] pub f8: MSmall,
    #[nserde(skip, default_with = "mw_MDMSmall_9")] pub f9: MSmall,
    #[nserde(default = "MSmall { x: 3, y: None }")] pub f10: MSmall,
    pub f11: MSmall,
    #[nserde(skip, default)] pub f12: MSmall,
    #[nserde(default_with = "mw_MDMSmall_13", rename = "ключ_13")] pub f13: MSmall,
    #[nserde(skip)] pub f14: MSmall,
}
impl Subject for MDMSmall  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MDMSmall", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: MSmall = MSmall { x: 3, y: None }; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "type2", ron: "type2", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "f3", ron: "f3", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDMSmall_4().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "_5", ron: "_5", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: MSmall = MSmall { x: 3, y: None }; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "ключ_7", ron: "ключ_7", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "type8", ron: "type8", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: MSmall = MSmall { x: 3, y: None }; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MDMSmall_9().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: MSmall = MSmall { x: 3, y: None }; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "ключ_13", ron: "ключ_13", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDMSmall_13().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MDMSmall { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val()]) }
}
fn mw_MDMSmall_4() -> MSmall { <MSmall as Subject>::from_val(&vcore::gen::sample::<MSmall>(2430)) }
fn mw_MDMSmall_9() -> MSmall { <MSmall as Subject>::from_val(&vcore::gen::sample::<MSmall>(2435)) }
fn mw_MDMSmall_13() -> MSmall { <MSmall as Subject>::from_val(&vcore::gen::sample::<MSmall>(2439)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum MEMSmall {
    V0 { f1: Option<MSmall>, f0: MSmall, #[nserde(skip, rename = "type2")] f2: Option<MSmall> },
    V1 { f4: String, #[nserde(rename = "N3")] f3: MSmall, #[nserde(default, rename = "_5", skip)] f5: String },
    V2 { #[nserde(default_with = "mw_MEMSmall_8", rename = "type8")] f8: (u8, String), f7: (u8, String), #[nserde(default)] f6: MSmall },
    V3 { f10: String, #[nserde(default = "MSmall { x: 3, y: None }")] f9: MSmall, #[nserde(skip)] f11: String },
    V4 { f13: i64, #[nserde(skip)] f14: i64, #[nserde(default_with = "mw_MEMSmall_12")] f12: MSmall },
    V5 { #[nserde(rename = "_17")] #[nserde(default = -0.5)] f17: Option<f64>, f16: Option<f64>, #[nserde(skip)] f15: MSmall },
    V6 { #[nserde(default, rename = "Ren18")] f18: MSmall, f19: f32, #[nserde(rename = "type20")] #[nserde(default = 1.5)] #[nserde(skip)] f20: f32 },
    V7 { #[nserde(rename = "N21")] #[nserde(default = "MSmall { x: 3, y: None }")] f21: MSmall, f22: u8, #[nserde(skip)] f23: u8 },
    V8 { f25: i64, #[nserde(rename = "type26", default_with = "mw_MEMSmall_26")] f26: i64, #[nserde(rename = "Ren24")] #[nserde(default_with = "mw_MEMSmall_24")] f24: MSmall },
    V9 { #[nserde(rename = "N27")] #[nserde(skip)] f27: MSmall },
    V10 { f31: BTreeMap<String, u8>, #[nserde(default_with = "mw_MEMSmall_32")] f32: BTreeMap<String, u8>, #[nserde(skip)] #[nserde(default)] f30: MSmall },
    V11 { #[nserde(default = "MSmall { x: 3, y: None }", skip)] f33: MSmall, f34: Vec<String>, #[nserde(rename = "_35", skip)] f35: Vec<String> },
    V12 { #[nserde(skip)] #[nserde(default_with = "mw_MEMSmall_36")] f36: MSmall, #[nserde(default)] f38: u8, f37: u8 },
    V13 { #[nserde(default, skip)] f41: i64, f40: i64, #[nserde(default, skip, rename = "N39")] f39: MSmall },
    V14 { #[nserde(default = 7)] f44: Option<u8>, #[nserde(skip)] #[nserde(default = "MSmall { x: 3, y: None }")] #[nserde(rename = "Ren42")] f42: MSmall, f43: Option<u8> },
}
impl Subject for MEMSmall {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "MEMSmall", variants: &[VariantDef { name: "V0", json: "V0", kind: Kind::Named, fields: &[FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }, FieldDef { name: "f0", json: "f0", ron: "f0", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }, FieldDef { name: "f2", json: "type2", ron: "type2", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }] }, VariantDef { name: "V1", json: "V1", kind: Kind::Named, fields: &[FieldDef { name: "f4", json: "f4", ron: "f4", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f3", json: "N3", ron: "N3", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }, FieldDef { name: "f5", json: "_5", ron: "_5", ty: <String as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V2", json: "V2", kind: Kind::Named, fields: &[FieldDef { name: "f8", json: "type8", ron: "type8", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEMSmall_8().to_val()), is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }, FieldDef { name: "f7", json: "f7", ron: "f7", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }, FieldDef { name: "f6", json: "f6", ron: "f6", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }] }, VariantDef { name: "V3", json: "V3", kind: Kind::Named, fields: &[FieldDef { name: "f10", json: "f10", ron: "f10", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f9", json: "f9", ron: "f9", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: MSmall = MSmall { x: 3, y: None }; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }, FieldDef { name: "f11", json: "f11", ron: "f11", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V4", json: "V4", kind: Kind::Named, fields: &[FieldDef { name: "f13", json: "f13", ron: "f13", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f14", json: "f14", ron: "f14", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f12", json: "f12", ron: "f12", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEMSmall_12().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }] }, VariantDef { name: "V5", json: "V5", kind: Kind::Named, fields: &[FieldDef { name: "f17", json: "_17", ron: "_17", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f16", json: "f16", ron: "f16", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f15", json: "f15", ron: "f15", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }] }, VariantDef { name: "V6", json: "V6", kind: Kind::Named, fields: &[FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }, FieldDef { name: "f19", json: "f19", ron: "f19", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }, FieldDef { name: "f20", json: "type20", ron: "type20", ty: <f32 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: f32 = 1.5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }] }, VariantDef { name: "V7", json: "V7", kind: Kind::Named, fields: &[FieldDef { name: "f21", json: "N21", ron: "N21", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: MSmall = MSmall { x: 3, y: None }; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }, FieldDef { name: "f22", json: "f22", ron: "f22", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f23", json: "f23", ron: "f23", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }] }, VariantDef { name: "V8", json: "V8", kind: Kind::Named, fields: &[FieldDef { name: "f25", json: "f25", ron: "f25", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f26", json: "type26", ron: "type26", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEMSmall_26().to_val()), is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f24", json: "Ren24", ron: "Ren24", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEMSmall_24().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }] }, VariantDef { name: "V9", json: "V9", kind: Kind::Named, fields: &[FieldDef { name: "f27", json: "N27", ron: "N27", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }] }, VariantDef { name: "V10", json: "V10", kind: Kind::Named, fields: &[FieldDef { name: "f31", json: "f31", ron: "f31", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }, FieldDef { name: "f32", json: "f32", ron: "f32", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEMSmall_32().to_val()), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }, FieldDef { name: "f30", json: "f30", ron: "f30", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }] }, VariantDef { name: "V11", json: "V11", kind: Kind::Named, fields: &[FieldDef { name: "f33", json: "f33", ron: "f33", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: MSmall = MSmall { x: 3, y: None }; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }, FieldDef { name: "f34", json: "f34", ron: "f34", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f35", json: "_35", ron: "_35", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }] }, VariantDef { name: "V12", json: "V12", kind: Kind::Named, fields: &[FieldDef { name: "f36", json: "f36", ron: "f36", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEMSmall_36().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }, FieldDef { name: "f38", json: "f38", ron: "f38", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f37", json: "f37", ron: "f37", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }] }, VariantDef { name: "V13", json: "V13", kind: Kind::Named, fields: &[FieldDef { name: "f41", json: "f41", ron: "f41", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f40", json: "f40", ron: "f40", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f39", json: "N39", ron: "N39", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }] }, VariantDef { name: "V14", json: "V14", kind: Kind::Named, fields: &[FieldDef { name: "f44", json: "f44", ron: "f44", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }, FieldDef { name: "f42", json: "Ren42", ron: "Ren42", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: MSmall = MSmall { x: 3, y: None }; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }, FieldDef { name: "f43", json: "f43", ron: "f43", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::V0 { f1: Subject::from_val(&x_[0]), f0: Subject::from_val(&x_[1]), f2: Subject::from_val(&x_[2]) }, 1 => Self::V1 { f4: Subject::from_val(&x_[0]), f3: Subject::from_val(&x_[1]), f5: Subject::from_val(&x_[2]) }, 2 => Self::V2 { f8: Subject::from_val(&x_[0]), f7: Subject::from_val(&x_[1]), f6: Subject::from_val(&x_[2]) }, 3 => Self::V3 { f10: Subject::from_val(&x_[0]), f9: Subject::from_val(&x_[1]), f11: Subject::from_val(&x_[2]) }, 4 => Self::V4 { f13: Subject::from_val(&x_[0]), f14: Subject::from_val(&x_[1]), f12: Subject::from_val(&x_[2]) }, 5 => Self::V5 { f17: Subject::from_val(&x_[0]), f16: Subject::from_val(&x_[1]), f15: Subject::from_val(&x_[2]) }, 6 => Self::V6 { f18: Subject::from_val(&x_[0]), f19: Subject::from_val(&x_[1]), f20: Subject::from_val(&x_[2]) }, 7 => Self::V7 { f21: Subject::from_val(&x_[0]), f22: Subject::from_val(&x_[1]), f23: Subject::from_val(&x_[2]) }, 8 => Self::V8 { f25: Subject::from_val(&x_[0]), f26: Subject::from_val(&x_[1]), f24: Subject::from_val(&x_[2]) }, 9 => Self::V9 { f27: Subject::from_val(&x_[0]) }, 10 => Self::V10 { f31: Subject::from_val(&x_[0]), f32: Subject::from_val(&x_[1]), f30: Subject::from_val(&x_[2]) }, 11 => Self::V11 { f33: Subject::from_val(&x_[0]), f34: Subject::from_val(&x_[1]), f35: Subject::from_val(&x_[2]) }, 12 => Self::V12 { f36: Subject::from_val(&x_[0]), f38: Subject::from_val(&x_[1]), f37: Subject::from_val(&x_[2]) }, 13 => Self::V13 { f41: Subject::from_val(&x_[0]), f40: Subject::from_val(&x_[1]), f39: Subject::from_val(&x_[2]) }, 14 => Self::V14 { f44: Subject::from_val(&x_[0]), f42: Subject::from_val(&x_[1]), f43: Subject::from_val(&x_[2]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::V0 { f1: b0, f0: b1, f2: b2 } => Val::Enum(0, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V1 { f4: b0, f3: b1, f5: b2 } => Val::Enum(1, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V2 { f8: b0, f7: b1, f6: b2 } => Val::Enum(2, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V3 { f10: b0, f9: b1, f11: b2 } => Val::Enum(3, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V4 { f13: b0, f14: b1, f12: b2 } => Val::Enum(4, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V5 { f17: b0, f16: b1, f15: b2 } => Val::Enum(5, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V6 { f18: b0, f19: b1, f20: b2 } => Val::Enum(6, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V7 { f21: b0, f22: b1, f23: b2 } => Val::Enum(7, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V8 { f25: b0, f26: b1, f24: b2 } => Val::Enum(8, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V9 { f27: b0 } => Val::Enum(9, vec![b0.to_val()]), Self::V10 { f31: b0, f32: b1, f30: b2 } => Val::Enum(10, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V11 { f33: b0, f34: b1, f35: b2 } => Val::Enum(11, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V12 { f36: b0, f38: b1, f37: b2 } => Val::Enum(12, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V13 { f41: b0, f40: b1, f39: b2 } => Val::Enum(13, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V14 { f44: b0, f42: b1, f43: b2 } => Val::Enum(14, vec![b0.to_val(), b1.to_val(), b2.to_val()]), } }
}
fn mw_MEMSmall_8() -> (u8, String) { <(u8, String) as Subject>::from_val(&vcore::gen::sample::<(u8, String)>(2465)) }
fn mw_MEMSmall_12() -> MSmall { <MSmall as Subject>::from_val(&vcore::gen::sample::<MSmall>(2469)) }
fn mw_MEMSmall_24() -> MSmall { <MSmall as Subject>::from_val(&vcore::gen::sample::<MSmall>(2481)) }
fn mw_MEMSmall_26() -> i64 { <i64 as Subject>::from_val(&vcore::gen::sample::<i64>(2483)) }
fn mw_MEMSmall_32() -> BTreeMap<String, u8> { <BTreeMap<String, u8> as Subject>::from_val(&vcore::gen::sample::<BTreeMap<String, u8>>(2489)) }
fn mw_MEMSmall_36() -> MSmall { <MSmall as Subject>::from_val(&vcore::gen::sample::<MSmall>(2493)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct MSMKind {
    #[nserde(default_with = "mw_MSMKind_0")] pub f0: MKind,
    #[nserde(rename = "ключ_1")] pub f1: MKind,
    #[nserde(skip)] #[nserde(rename = "type2")] #[nserde(default)] pub f2: MKind,
    #[nserde(rename = "N3", skip)] pub f3: MKind,
    #[nserde(default = "MKind::B(4)", rename = "some_4", skip)] pub f4: MKind,
    #[nserde(default_with = "mw_MSMKind_5")] #[nserde(rename = "_5")] pub f5: MKind,
    #[nserde(default_with = "mw_MSMKind_6")] #[nserde(skip)] pub f6: MKind,
    #[nserde(rename = "ключ_7")] #[nserde(default)] pub f7: MKind,
    #[nserde(skip, default)] pub f8: MKind,
    #[nserde(skip, default = "MKind::B(4)")] pub f9: MKind,
    #[nserde(default = "MKind::B(4)", rename = "some_10")] pub f10: MKind,
    #[nserde(skip)] pub f11: MKind,
    #[nserde(default)] pub f12: MKind,
    #[nserde(default = "MKind::B(4)")] pub f13: MKind,
    pub f14: MKind,
}
impl Subject for MSMKind  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MSMKind", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSMKind_0().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "type2", ron: "type2", ty: <MKind as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <MKind as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "some_4", ron: "some_4", ty: <MKind as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: MKind = MKind::B(4); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "_5", ron: "_5", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSMKind_5().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <MKind as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MSMKind_6().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "ключ_7", ron: "ключ_7", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <MKind as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <MKind as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: MKind = MKind::B(4); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "some_10", ron: "some_10", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: MKind = MKind::B(4); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <MKind as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: MKind = MKind::B(4); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MSMKind { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val()]) }
}
fn mw_MSMKind_0() -> MKind { <MKind as Subject>::from_val(&vcore::gen::sample::<MKind>(2488)) }
fn mw_MSMKind_5() -> MKind { <MKind as Subject>::from_val(&vcore::gen::sample::<MKind>(2493)) }
fn mw_MSMKind_6() -> MKind { <MKind as Subject>::from_val(&vcore::gen::sample::<MKind>(2494)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default)]
pub struct MDMKind {
    #[nserde(default = "MKind::B(4)")] pub f0: MKind,
    #[nserde(default)] pub f1: MKind,
    #[nserde(rename = "type2", default = "MKind::B(4)")] pub f2: MKind,
    pub f3: MKind,
    #[nserde(default_with = "mw_MDMKind_4")] #[nserde(rename = "some_4")] pub f4: MKind,
    #[nserde(default = "MKind::B(4)")] #[nserde(skip)] pub f5: MKind,
    #[nserde(rename = "Ren6", default, skip)] pub f6: MKind,
    #[nserde(default_with = "mw_MDMKind_7")] pub f7: MKind,
    #[nserde(skip)] pub f8: MKind,
    #[nserde(rename = "N9")] pub f9: MKind,
    #[nserde(rename = "some_10", skip, default = "MKind::B(4)")] pub f10: MKind,
    #[nserde(skip, rename = "_11")] pub f11: MKind,
    #[nserde(skip)] #[nserde(default)] pub f12: MKind,
    #[nserde(default, rename = "ключ_13")] pub f13: MKind,
    #[nserde(default_with = "mw_MDMKind_14")] #[nserde(skip)] pub f14: MKind,
}
impl Subject for MDMKind  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MDMKind", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: MKind = MKind::B(4); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "type2", ron: "type2", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: MKind = MKind::B(4); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "f3", ron: "f3", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "some_4", ron: "some_4", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDMKind_4().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <MKind as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: MKind = MKind::B(4); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <MKind as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDMKind_7().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <MKind as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "N9", ron: "N9", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "some_10", ron: "some_10", ty: <MKind as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: MKind = MKind::B(4); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "_11", ron: "_11", ty: <MKind as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <MKind as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "ключ_13", ron: "ключ_13", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <MKind as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MDMKind_14().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MDMKind { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val()]) }
}
fn mw_MDMKind_4() -> MKind { <MKind as Subject>::from_val(&vcore::gen::sample::<MKind>(2523)) }
fn mw_MDMKind_7() -> MKind { <MKind as Subject>::from_val(&vcore::gen::sample::<MKind>(2526)) }
fn mw_MDMKind_14() -> MKind { <MKind as Subject>::from_val(&vcore::gen::sample::<MKind>(2533)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum MEMKind {
    V0 { f1: (u8, String), f0: MKind, #[nserde(rename = "type2", skip)] f2: (u8, String) },
    V1 { #[nserde(rename = "N3")] f3: MKind },
    V2 { #[nserde(default)] f6: MKind, #[nserde(default = "MSmall { x: 9, y: Some(true) }")] #[nserde(skip)] #[nserde(rename = "type8")] f8: Option<MSmall>, f7: Option<MSmall> },
    V3 { #[nserde(skip, default = "MSmall { x: 3, y: None }")] f11: MSmall, #[nserde(default = "MKind::B(4)")] f9: MKind },
    V4 { f14: Option<String> },
    V5 { #[nserde(skip)] f15: MKind, f17: Option<f64>, f16: Option<f64> },
    V6 { f19: Vec<String>, #[nserde(default)] #[nserde(rename = "Ren18")] f18: MKind, #[nserde(skip, default = "vec![String::from(\"a\\n\")]")] f20: Vec<String> },
    V7 { f22: Option<Vec<String>>, #[nserde(default = "MKind::B(4)")] #[nserde(rename = "N21")] f21: MKind, #[nserde(default_with = "mw_MEMKind_23")] f23: Option<Vec<String>> },
    V8 { #[nserde(default_with = "mw_MEMKind_24")] #[nserde(rename = "Ren24")] f24: MKind, #[nserde(default, rename = "type26", skip)] f26: u8 },
    V9 { #[nserde(skip, rename = "N27")] f27: MKind, #[nserde(skip)] f29: i64 },
    V10 { #[nserde(skip, default)] f30: MKind },
    V11 { #[nserde(skip)] #[nserde(default = "MKind::B(4)")] f33: MKind, #[nserde(skip)] #[nserde(default_with = "mw_MEMKind_35")] f35: String, f34: String },
    V12 { #[nserde(skip, default_with = "mw_MEMKind_36")] f36: MKind, f37: Option<MSmall>, #[nserde(rename = "type38")] #[nserde(skip)] f38: Option<MSmall> },
    V13 { #[nserde(skip, default, rename = "N39")] f39: MKind },
    V14 { f43: Option<String>, #[nserde(skip, rename = "Ren42", default = "MKind::B(4)")] f42: MKind, #[nserde(default_with = "mw_MEMKind_44")] #[nserde(skip)] f44: Option<String> },
}
impl Subject for MEMKind {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "MEMKind", variants: &[VariantDef { name: "V0", json: "V0", kind: Kind::Named, fields: &[FieldDef { name: "f1", json: "f1", ron: "f1", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }, FieldDef { name: "f0", json: "f0", ron: "f0", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }, FieldDef { name: "f2", json: "type2", ron: "type2", ty: <(u8, String) as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }] }, VariantDef { name: "V1", json: "V1", kind: Kind::Named, fields: &[FieldDef { name: "f3", json: "N3", ron: "N3", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }] }, VariantDef { name: "V2", json: "V2", kind: Kind::Named, fields: &[FieldDef { name: "f6", json: "f6", ron: "f6", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }, FieldDef { name: "f8", json: "type8", ron: "type8", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }, FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }] }, VariantDef { name: "V3", json: "V3", kind: Kind::Named, fields: &[FieldDef { name: "f11", json: "f11", ron: "f11", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: MSmall = MSmall { x: 3, y: None }; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }, FieldDef { name: "f9", json: "f9", ron: "f9", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: MKind = MKind::B(4); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }] }, VariantDef { name: "V4", json: "V4", kind: Kind::Named, fields: &[FieldDef { name: "f14", json: "f14", ron: "f14", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }] }, VariantDef { name: "V5", json: "V5", kind: Kind::Named, fields: &[FieldDef { name: "f15", json: "f15", ron: "f15", ty: <MKind as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }, FieldDef { name: "f17", json: "f17", ron: "f17", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f16", json: "f16", ron: "f16", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }] }, VariantDef { name: "V6", json: "V6", kind: Kind::Named, fields: &[FieldDef { name: "f19", json: "f19", ron: "f19", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }, FieldDef { name: "f20", json: "f20", ron: "f20", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Vec<String> = vec![String::from("a\n")]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }] }, VariantDef { name: "V7", json: "V7", kind: Kind::Named, fields: &[FieldDef { name: "f22", json: "f22", ron: "f22", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f21", json: "N21", ron: "N21", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: MKind = MKind::B(4); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }, FieldDef { name: "f23", json: "f23", ron: "f23", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEMKind_23().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }] }, VariantDef { name: "V8", json: "V8", kind: Kind::Named, fields: &[FieldDef { name: "f24", json: "Ren24", ron: "Ren24", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEMKind_24().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }, FieldDef { name: "f26", json: "type26", ron: "type26", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }] }, VariantDef { name: "V9", json: "V9", kind: Kind::Named, fields: &[FieldDef { name: "f27", json: "N27", ron: "N27", ty: <MKind as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }, FieldDef { name: "f29", json: "f29", ron: "f29", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }] }, VariantDef { name: "V10", json: "V10", kind: Kind::Named, fields: &[FieldDef { name: "f30", json: "f30", ron: "f30", ty: <MKind as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }] }, VariantDef { name: "V11", json: "V11", kind: Kind::Named, fields: &[FieldDef { name: "f33", json: "f33", ron: "f33", ty: <MKind as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: MKind = MKind::B(4); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }, FieldDef { name: "f35", json: "f35", ron: "f35", ty: <String as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEMKind_35().to_val()), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f34", json: "f34", ron: "f34", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V12", json: "V12", kind: Kind::Named, fields: &[FieldDef { name: "f36", json: "f36", ron: "f36", ty: <MKind as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEMKind_36().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }, FieldDef { name: "f37", json: "f37", ron: "f37", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }, FieldDef { name: "f38", json: "type38", ron: "type38", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }] }, VariantDef { name: "V13", json: "V13", kind: Kind::Named, fields: &[FieldDef { name: "f39", json: "N39", ron: "N39", ty: <MKind as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }] }, VariantDef { name: "V14", json: "V14", kind: Kind::Named, fields: &[FieldDef { name: "f43", json: "f43", ron: "f43", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f42", json: "Ren42", ron: "Ren42", ty: <MKind as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: MKind = MKind::B(4); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }, FieldDef { name: "f44", json: "f44", ron: "f44", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEMKind_44().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::V0 { f1: Subject::from_val(&x_[0]), f0: Subject::from_val(&x_[1]), f2: Subject::from_val(&x_[2]) }, 1 => Self::V1 { f3: Subject::from_val(&x_[0]) }, 2 => Self::V2 { f6: Subject::from_val(&x_[0]), f8: Subject::from_val(&x_[1]), f7: Subject::from_val(&x_[2]) }, 3 => Self::V3 { f11: Subject::from_val(&x_[0]), f9: Subject::from_val(&x_[1]) }, 4 => Self::V4 { f14: Subject::from_val(&x_[0]) }, 5 => Self::V5 { f15: Subject::from_val(&x_[0]), f17: Subject::from_val(&x_[1]), f16: Subject::from_val(&x_[2]) }, 6 => Self::V6 { f19: Subject::from_val(&x_[0]), f18: Subject::from_val(&x_[1]), f20: Subject::from_val(&x_[2]) }, 7 => Self::V7 { f22: Subject::from_val(&x_[0]), f21: Subject::from_val(&x_[1]), f23: Subject::from_val(&x_[2]) }, 8 => Self::V8 { f24: Subject::from_val(&x_[0]), f26: Subject::from_val(&x_[1]) }, 9 => Self::V9 { f27: Subject::from_val(&x_[0]), f29: Subject::from_val(&x_[1]) }, 10 => Self::V10 { f30: Subject::from_val(&x_[0]) }, 11 => Self::V11 { f33: Subject::from_val(&x_[0]), f35: Subject::from_val(&x_[1]), f34: Subject::from_val(&x_[2]) }, 12 => Self::V12 { f36: Subject::from_val(&x_[0]), f37: Subject::from_val(&x_[1]), f38: Subject::from_val(&x_[2]) }, 13 => Self::V13 { f39: Subject::from_val(&x_[0]) }, 14 => Self::V14 { f43: Subject::from_val(&x_[0]), f42: Subject::from_val(&x_[1]), f44: Subject::from_val(&x_[2]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::V0 { f1: b0, f0: b1, f2: b2 } => Val::Enum(0, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V1 { f3: b0 } => Val::Enum(1, vec![b0.to_val()]), Self::V2 { f6: b0, f8: b1, f7: b2 } => Val::Enum(2, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V3 { f11: b0, f9: b1 } => Val::Enum(3, vec![b0.to_val(), b1.to_val()]), Self::V4 { f14: b0 } => Val::Enum(4, vec![b0.to_val()]), Self::V5 { f15: b0, f17: b1, f16: b2 } => Val::Enum(5, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V6 { f19: b0, f18: b1, f20: b2 } => Val::Enum(6, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V7 { f22: b0, f21: b1, f23: b2 } => Val::Enum(7, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V8 { f24: b0, f26: b1 } => Val::Enum(8, vec![b0.to_val(), b1.to_val()]), Self::V9 { f27: b0, f29: b1 } => Val::Enum(9, vec![b0.to_val(), b1.to_val()]), Self::V10 { f30: b0 } => Val::Enum(10, vec![b0.to_val()]), Self::V11 { f33: b0, f35: b1, f34: b2 } => Val::Enum(11, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V12 { f36: b0, f37: b1, f38: b2 } => Val::Enum(12, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V13 { f39: b0 } => Val::Enum(13, vec![b0.to_val()]), Self::V14 { f43: b0, f42: b1, f44: b2 } => Val::Enum(14, vec![b0.to_val(), b1.to_val(), b2.to_val()]), } }
}
fn mw_MEMKind_5() -> Vec<String> { <Vec<String> as Subject>::from_val(&vcore::gen::sample::<Vec<String>>(2555)) }
fn mw_MEMKind_12() -> MKind { <MKind as Subject>::from_val(&vcore::gen::sample::<MKind>(2562)) }
fn mw_MEMKind_23() -> Option<Vec<String>> { <Option<Vec<String>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<String>>>(2573)) }
fn mw_MEMKind_24() -> MKind { <MKind as Subject>::from_val(&vcore::gen::sample::<MKind>(2574)) }
fn mw_MEMKind_35() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(2585)) }
fn mw_MEMKind_36() -> MKind { <MKind as Subject>::from_val(&vcore::gen::sample::<MKind>(2586)) }
fn mw_MEMKind_41() -> BTreeMap<String, u8> { <BTreeMap<String, u8> as Subject>::from_val(&vcore::gen::sample::<BTreeMap<String, u8>>(2591)) }
fn mw_MEMKind_44() -> Option<String> { <Option<String> as Subject>::from_val(&vcore::gen::sample::<Option<String>>(2594)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct MSBTreeMapStringu8 {
    #[nserde(skip)] pub f0: BTreeMap<String, u8>,
    #[nserde(skip, default_with = "mw_MSBTreeMapStringu8_1")] pub f1: BTreeMap<String, u8>,
    #[nserde(default = "mdflt()", rename = "type2")] pub f2: BTreeMap<String, u8>,
    #[nserde(rename = "N3", default)] pub f3: BTreeMap<String, u8>,
    #[nserde(skip)] #[nserde(default = "mdflt()")] pub f4: BTreeMap<String, u8>,
    #[nserde(default)] #[nserde(skip)] pub f5: BTreeMap<String, u8>,
    #[nserde(default_with = "mw_MSBTreeMapStringu8_6")] pub f6: BTreeMap<String, u8>,
    #[nserde(default = "mdflt()")] pub f7: BTreeMap<String, u8>,
    #[nserde(rename = "type8", default_with = "mw_MSBTreeMapStringu8_8")] pub f8: BTreeMap<String, u8>,
    #[nserde(rename = "N9")] #[nserde(skip)] #[nserde(default)] pub f9: BTreeMap<String, u8>,
    #[nserde(default = "mdflt()", skip, rename = "some_10")] pub f10: BTreeMap<String, u8>,
    #[nserde(default)] pub f11: BTreeMap<String, u8>,
    #[nserde(skip)] #[nserde(rename = "Ren12")] pub f12: BTreeMap<String, u8>,
    pub f13: BTreeMap<String, u8>,
    #[nserde(rename = "type14")] pub f14: BTreeMap<String, u8>,
}
impl Subject for MSBTreeMapStringu8  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MSBTreeMapStringu8", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MSBTreeMapStringu8_1().to_val()), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "type2", ron: "type2", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: BTreeMap<String, u8> = mdflt(); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: BTreeMap<String, u8> = mdflt(); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSBTreeMapStringu8_6().to_val()), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: BTreeMap<String, u8> = mdflt(); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "type8", ron: "type8", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSBTreeMapStringu8_8().to_val()), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "N9", ron: "N9", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "some_10", ron: "some_10", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: BTreeMap<String, u8> = mdflt(); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "Ren12", ron: "Ren12", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MSBTreeMapStringu8 { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val()]) }
}
fn mw_MSBTreeMapStringu8_1() -> BTreeMap<String, u8> { <BTreeMap<String, u8> as Subject>::from_val(&vcore::gen::sample::<BTreeMap<String, u8>>(2582)) }
fn mw_MSBTreeMapStringu8_6() -> BTreeMap<String, u8> { <BTreeMap<String, u8> as Subject>::from_val(&vcore::gen::sample::<BTreeMap<String, u8>>(2587)) }
fn mw_MSBTreeMapStringu8_8() -> BTreeMap<String, u8> { <BTreeMap<String, u8> as Subject>::from_val(&vcore::gen::sample::<BTreeMap<String, u8>>(2589)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default)]
pub struct MDBTreeMapStringu8 {
    #[nserde(default)] pub f0: BTreeMap<String, u8>,
    #[nserde(rename = "ключ_1", default = "mdflt()")] pub f1: BTreeMap<String, u8>,
    #[nserde(default_with = "mw_MDBTreeMapStringu8_2")] pub f2: BTreeMap<String, u8>,
    #[nserde(skip)] #[nserde(default_with = "mw_MDBTreeMapStringu8_3")] pub f3: BTreeMap<String, u8>,
    #[nserde(rename = "some_4")] pub f4: BTreeMap<String, u8>,
    #[nserde(skip)] #[nserde(default = "mdflt()")] pub f5: BTreeMap<String, u8>,
    #[nserde(rename = "Ren6", skip)] pub f6: BTreeMap<String, u8>,
    #[nserde(rename = "ключ_7", default_with = "mw_MDBTreeMapStringu8_7")] pub f7: BTreeMap<String, u8>,
    #[nserde(skip, rename = "type8", default)] pub f8: BTreeMap<String, u8>,
    #[nserde(default = "mdflt()")] pub f9: BTreeMap<String, u8>,
    pub f10: BTreeMap<String, u8>,
    #[nserde(skip)] pub f11: BTreeMap<String, u8>,
    #[nserde(skip, default = "mdflt()", rename = "Ren12")] pub f12: BTreeMap<String, u8>,
    #[nserde(rename = "ключ_13", default)] pub f13: BTreeMap<String, u8>,
    #[nserde(skip, default)] pub f14: BTreeMap<String, u8>,
}
impl Subject for MDBTreeMapStringu8  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MDBTreeMapStringu8", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: BTreeMap<String, u8> = mdflt(); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDBTreeMapStringu8_2().to_val()), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "f3", ron: "f3", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MDBTreeMapStringu8_3().to_val()), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "some_4", ron: "some_4", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: BTreeMap<String, u8> = mdflt(); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "ключ_7", ron: "ключ_7", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDBTreeMapStringu8_7().to_val()), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "type8", ron: "type8", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: BTreeMap<String, u8> = mdflt(); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "Ren12", ron: "Ren12", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: BTreeMap<String, u8> = mdflt(); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "ключ_13", ron: "ключ_13", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MDBTreeMapStringu8 { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val()]) }
}
fn mw_MDBTreeMapStringu8_2() -> BTreeMap<String, u8> { <BTreeMap<String, u8> as Subject>::from_val(&vcore::gen::sample::<BTreeMap<String, u8>>(2614)) }
fn mw_MDBTreeMapStringu8_3() -> BTreeMap<String, u8> { <BTreeMap<String, u8> as Subject>::from_val(&vcore::gen::sample::<BTreeMap<String, u8>>(2615)) }
fn mw_MDBTreeMapStringu8_7() -> BTreeMap<String, u8> { <BTreeMap<String, u8> as Subject>::from_val(&vcore::gen::sample::<BTreeMap<String, u8>>(2619)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum MEBTreeMapStringu8 {
    V0 { #[nserde(rename = "type2")] f2: Vec<String>, f0: BTreeMap<String, u8>, f1: Vec<String> },
    V1 { #[nserde(rename = "N3")] f3: BTreeMap<String, u8> },
    V2 { #[nserde(rename = "type8")] #[nserde(default)] #[nserde(skip)] f8: Option<f64>, #[nserde(default)] f6: BTreeMap<String, u8>, f7: Option<f64> },
    V3 { f10: String, #[nserde(skip, rename = "_11", default = "a \"b\" {}")] f11: String },
    V4 { #[nserde(rename = "type14")] #[nserde(default_with = "mw_MEBTreeMapStringu8_14")] f14: String, f13: String, #[nserde(default_with = "mw_MEBTreeMapStringu8_12")] f12: BTreeMap<String, u8> },
    V5 { #[nserde(skip)] f15: BTreeMap<String, u8>, f16: f32, #[nserde(rename = "_17", default)] f17: f32 },
    V6 { f19: i64, #[nserde(default)] #[nserde(rename = "Ren18")] f18: BTreeMap<String, u8>, #[nserde(skip)] #[nserde(default)] f20: i64 },
    V7 { #[nserde(skip, rename = "_23", default = "true")] f23: bool, f22: bool, #[nserde(default = "mdflt()")] #[nserde(rename = "N21")] f21: BTreeMap<String, u8> },
    V8 { f25: Option<u8>, #[nserde(rename = "Ren24")] #[nserde(default_with = "mw_MEBTreeMapStringu8_24")] f24: BTreeMap<String, u8>, #[nserde(default = 7)] f26: Option<u8> },
    V9 { f28: Option<String>, #[nserde(skip)] #[nserde(rename = "_29")] #[nserde(default)] f29: Option<String>, #[nserde(skip, rename = "N27")] f27: BTreeMap<String, u8> },
    V10 { f31: String },
    V11 { f34: MSmall, #[nserde(default = "mdflt()")] #[nserde(skip)] f33: BTreeMap<String, u8>, #[nserde(skip)] f35: MSmall },
    V12 { #[nserde(default_with = "mw_MEBTreeMapStringu8_36", skip)] f36: BTreeMap<String, u8>, f37: Option<String> },
    V13 { f40: Option<String>, #[nserde(rename = "_41", default)] f41: Option<String>, #[nserde(rename = "N39", skip, default)] f39: BTreeMap<String, u8> },
    V14 { f43: String, #[nserde(rename = "Ren42", default = "mdflt()", skip)] f42: BTreeMap<String, u8>, #[nserde(default)] #[nserde(skip)] #[nserde(rename = "type44")] f44: String },
}
impl Subject for MEBTreeMapStringu8 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "MEBTreeMapStringu8", variants: &[VariantDef { name: "V0", json: "V0", kind: Kind::Named, fields: &[FieldDef { name: "f2", json: "type2", ron: "type2", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f0", json: "f0", ron: "f0", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }, FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }] }, VariantDef { name: "V1", json: "V1", kind: Kind::Named, fields: &[FieldDef { name: "f3", json: "N3", ron: "N3", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }] }, VariantDef { name: "V2", json: "V2", kind: Kind::Named, fields: &[FieldDef { name: "f8", json: "type8", ron: "type8", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f6", json: "f6", ron: "f6", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }, FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }] }, VariantDef { name: "V3", json: "V3", kind: Kind::Named, fields: &[FieldDef { name: "f10", json: "f10", ron: "f10", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f11", json: "_11", ron: "_11", ty: <String as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: String = String::from("a \"b\" {}"); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V4", json: "V4", kind: Kind::Named, fields: &[FieldDef { name: "f14", json: "type14", ron: "type14", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEBTreeMapStringu8_14().to_val()), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f13", json: "f13", ron: "f13", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f12", json: "f12", ron: "f12", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEBTreeMapStringu8_12().to_val()), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }] }, VariantDef { name: "V5", json: "V5", kind: Kind::Named, fields: &[FieldDef { name: "f15", json: "f15", ron: "f15", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }, FieldDef { name: "f16", json: "f16", ron: "f16", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }, FieldDef { name: "f17", json: "_17", ron: "_17", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }] }, VariantDef { name: "V6", json: "V6", kind: Kind::Named, fields: &[FieldDef { name: "f19", json: "f19", ron: "f19", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }, FieldDef { name: "f20", json: "f20", ron: "f20", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }] }, VariantDef { name: "V7", json: "V7", kind: Kind::Named, fields: &[FieldDef { name: "f23", json: "_23", ron: "_23", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: bool = true; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f22", json: "f22", ron: "f22", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f21", json: "N21", ron: "N21", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: BTreeMap<String, u8> = mdflt(); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }] }, VariantDef { name: "V8", json: "V8", kind: Kind::Named, fields: &[FieldDef { name: "f25", json: "f25", ron: "f25", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }, FieldDef { name: "f24", json: "Ren24", ron: "Ren24", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEBTreeMapStringu8_24().to_val()), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }, FieldDef { name: "f26", json: "f26", ron: "f26", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] }, VariantDef { name: "V9", json: "V9", kind: Kind::Named, fields: &[FieldDef { name: "f28", json: "f28", ron: "f28", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f29", json: "_29", ron: "_29", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f27", json: "N27", ron: "N27", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }] }, VariantDef { name: "V10", json: "V10", kind: Kind::Named, fields: &[FieldDef { name: "f31", json: "f31", ron: "f31", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V11", json: "V11", kind: Kind::Named, fields: &[FieldDef { name: "f34", json: "f34", ron: "f34", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }, FieldDef { name: "f33", json: "f33", ron: "f33", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: BTreeMap<String, u8> = mdflt(); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }, FieldDef { name: "f35", json: "f35", ron: "f35", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }] }, VariantDef { name: "V12", json: "V12", kind: Kind::Named, fields: &[FieldDef { name: "f36", json: "f36", ron: "f36", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEBTreeMapStringu8_36().to_val()), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }, FieldDef { name: "f37", json: "f37", ron: "f37", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }] }, VariantDef { name: "V13", json: "V13", kind: Kind::Named, fields: &[FieldDef { name: "f40", json: "f40", ron: "f40", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f41", json: "_41", ron: "_41", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f39", json: "N39", ron: "N39", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }] }, VariantDef { name: "V14", json: "V14", kind: Kind::Named, fields: &[FieldDef { name: "f43", json: "f43", ron: "f43", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f42", json: "Ren42", ron: "Ren42", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: BTreeMap<String, u8> = mdflt(); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }, FieldDef { name: "f44", json: "type44", ron: "type44", ty: <String as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::V0 { f2: Subject::from_val(&x_[0]), f0: Subject::from_val(&x_[1]), f1: Subject::from_val(&x_[2]) }, 1 => Self::V1 { f3: Subject::from_val(&x_[0]) }, 2 => Self::V2 { f8: Subject::from_val(&x_[0]), f6: Subject::from_val(&x_[1]), f7: Subject::from_val(&x_[2]) }, 3 => Self::V3 { f10: Subject::from_val(&x_[0]), f11: Subject::from_val(&x_[1]) }, 4 => Self::V4 { f14: Subject::from_val(&x_[0]), f13: Subject::from_val(&x_[1]), f12: Subject::from_val(&x_[2]) }, 5 => Self::V5 { f15: Subject::from_val(&x_[0]), f16: Subject::from_val(&x_[1]), f17: Subject::from_val(&x_[2]) }, 6 => Self::V6 { f19: Subject::from_val(&x_[0]), f18: Subject::from_val(&x_[1]), f20: Subject::from_val(&x_[2]) }, 7 => Self::V7 { f23: Subject::from_val(&x_[0]), f22: Subject::from_val(&x_[1]), f21: Subject::from_val(&x_[2]) }, 8 => Self::V8 { f25: Subject::from_val(&x_[0]), f24: Subject::from_val(&x_[1]), f26: Subject::from_val(&x_[2]) }, 9 => Self::V9 { f28: Subject::from_val(&x_[0]), f29: Subject::from_val(&x_[1]), f27: Subject::from_val(&x_[2]) }, 10 => Self::V10 { f31: Subject::from_val(&x_[0]) }, 11 => Self::V11 { f34: Subject::from_val(&x_[0]), f33: Subject::from_val(&x_[1]), f35: Subject::from_val(&x_[2]) }, 12 => Self::V12 { f36: Subject::from_val(&x_[0]), f37: Subject::from_val(&x_[1]) }, 13 => Self::V13 { f40: Subject::from_val(&x_[0]), f41: Subject::from_val(&x_[1]), f39: Subject::from_val(&x_[2]) }, 14 => Self::V14 { f43: Subject::from_val(&x_[0]), f42: Subject::from_val(&x_[1]), f44: Subject::from_val(&x_[2]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::V0 { f2: b0, f0: b1, f1: b2 } => Val::Enum(0, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V1 { f3: b0 } => Val::Enum(1, vec![b0.to_val()]), Self::V2 { f8: b0, f6: b1, f7: b2 } => Val::Enum(2, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V3 { f10: b0, f11: b1 } => Val::Enum(3, vec![b0.to_val(), b1.to_val()]), Self::V4 { f14: b0, f13: b1, f12: b2 } => Val::Enum(4, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V5 { f15: b0, f16: b1, f17: b2 } => Val::Enum(5, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V6 { f19: b0, f18: b1, f20: b2 } => Val::Enum(6, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V7 { f23: b0, f22: b1, f21: b2 } => Val::Enum(7, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V8 { f25: b0, f24: b1, f26: b2 } => Val::Enum(8, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V9 { f28: b0, f29: b1, f27: b2 } => Val::Enum(9, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V10 { f31: b0 } => Val::Enum(10, vec![b0.to_val()]), Self::V11 { f34: b0, f33: b1, f35: b2 } => Val::Enum(11, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V12 { f36: b0, f37: b1 } => Val::Enum(12, vec![b0.to_val(), b1.to_val()]), Self::V13 { f40: b0, f41: b1, f39: b2 } => Val::Enum(13, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V14 { f43: b0, f42: b1, f44: b2 } => Val::Enum(14, vec![b0.to_val(), b1.to_val(), b2.to_val()]), } }
}
fn mw_MEBTreeMapStringu8_12() -> BTreeMap<String, u8> { <BTreeMap<String, u8> as Subject>::from_val(&vcore::gen::sample::<BTreeMap<String, u8>>(2655)) }
fn mw_MEBTreeMapStringu8_14() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(2657)) }
fn mw_MEBTreeMapStringu8_24() -> BTreeMap<String, u8> { <BTreeMap<String, u8> as Subject>::from_val(&vcore::gen::sample::<BTreeMap<String, u8>>(2667)) }
fn mw_MEBTreeMapStringu8_32() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(2675)) }
fn mw_MEBTreeMapStringu8_36() -> BTreeMap<String, u8> { <BTreeMap<String, u8> as Subject>::from_val(&vcore::gen::sample::<BTreeMap<String, u8>>(2679)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct MSOptionu8 {
    #[nserde(default_with = "mw_MSOptionu8_0", serialize_none_as_null)] pub f0: Option<u8>,
    #[nserde(rename = "ключ_1", skip, default)] pub f1: Option<u8>,
    #[nserde(default)] pub f2: Option<u8>,
    #[nserde(rename = "N3")] #[nserde(default = 7)] #[nserde(serialize_none_as_null)] pub f3: Option<u8>,
    #[nserde(default = 7)] pub f4: Option<u8>,
    #[nserde(default, rename = "_5")] pub f5: Option<u8>,
    #[nserde(default_with = "mw_MSOptionu8_6")] pub f6: Option<u8>,
    #[nserde(skip)] pub f7: Option<u8>,
    #[nserde(rename = "type8")] #[nserde(default_with = "mw_MSOptionu8_8")] pub f8: Option<u8>,
    #[nserde(default = 7, skip)] pub f9: Option<u8>,
    #[nserde(serialize_none_as_null)] pub f10: Option<u8>,
    #[nserde(rename = "_11", serialize_none_as_null)] pub f11: Option<u8>,
    pub f12: Option<u8>,
    #[nserde(rename = "ключ_13", skip)] pub f13: Option<u8>,
    #[nserde(default = 7)] #[nserde(rename = "type14")] pub f14: Option<u8>,
    #[nserde(default = 7, serialize_none_as_null)] pub f15: Option<u8>,
    #[nserde(default = 7, rename = "some_16", skip)] pub f16: Option<u8>,
    #[nserde(skip, default)] pub f17: Option<u8>,
    #[nserde(serialize_none_as_null, default)] pub f18: Option<u8>,
    #[nserde(default_with = "mw_MSOptionu8_19")] #[nserde(skip)] pub f19: Option<u8>,
    #[nserde(rename = "type20")] pub f20: Option<u8>,
}
impl Subject for MSOptionu8  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MSOptionu8", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSOptionu8_0().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "_5", ron: "_5", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSOptionu8_6().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "type8", ron: "type8", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSOptionu8_8().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "_11", ron: "_11", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "ключ_13", ron: "ключ_13", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "f15", ron: "f15", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "some_16", ron: "some_16", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "f17", ron: "f17", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "f18", ron: "f18", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "f19", ron: "f19", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MSOptionu8_19().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "type20", ron: "type20", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MSOptionu8 { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MSOptionu8_0() -> Option<u8> { <Option<u8> as Subject>::from_val(&vcore::gen::sample::<Option<u8>>(2674)) }
fn mw_MSOptionu8_6() -> Option<u8> { <Option<u8> as Subject>::from_val(&vcore::gen::sample::<Option<u8>>(2680)) }
fn mw_MSOptionu8_8() -> Option<u8> { <Option<u8> as Subject>::from_val(&vcore::gen::sample::<Option<u8>>(2682)) }
fn mw_MSOptionu8_19() -> Option<u8> { <Option<u8> as Subject>::from_val(&vcore::gen::sample::<Option<u8>>(2693)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default)]
pub struct MDOptionu8 {
    #[nserde(default = 7)] pub f0: Option<u8>,
    pub f1: Option<u8>,
    #[nserde(rename = "type2")] #[nserde(default_with = "mw_MDOptionu8_2")] pub f2: Option<u8>,
    #[nserde(rename = "N3", skip)] pub f3: Option<u8>,
    #[nserde(default = 7, serialize_none_as_null)] pub f4: Option<u8>,
    #[nserde(default = 7, rename = "_5")] pub f5: Option<u8>,
    #[nserde(serialize_none_as_null)] #[nserde(default)] pub f6: Option<u8>,
    #[nserde(skip)] pub f7: Option<u8>,
    #[nserde(skip)] #[nserde(default = 7)] #[nserde(rename = "type8")] pub f8: Option<u8>,
    #[nserde(serialize_none_as_null)] pub f9: Option<u8>,
    #[nserde(default_with = "mw_MDOptionu8_10")] pub f10: Option<u8>,
    #[nserde(serialize_none_as_null, rename = "_11")] pub f11: Option<u8>,
    #[nserde(default)] pub f12: Option<u8>,
    #[nserde(rename = "ключ_13", default)] pub f13: Option<u8>,
    #[nserde(default_with = "mw_MDOptionu8_14")] #[nserde(serialize_none_as_null)] pub f14: Option<u8>,
    #[nserde(default, skip, rename = "N15")] pub f15: Option<u8>,
    #[nserde(skip, default = 7)] pub f16: Option<u8>,
    #[nserde(default_with = "mw_MDOptionu8_17", skip)] pub f17: Option<u8>,
    #[nserde(default, skip)] pub f18: Option<u8>,
    #[nserde(rename = "ключ_19")] pub f19: Option<u8>,
    #[nserde(serialize_none_as_null)] #[nserde(rename = "type20")] #[nserde(default = 7)] pub f20: Option<u8>,
}
impl Subject for MDOptionu8  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MDOptionu8", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "type2", ron: "type2", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDOptionu8_2().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "_5", ron: "_5", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "type8", ron: "type8", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDOptionu8_10().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "_11", ron: "_11", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "ключ_13", ron: "ключ_13", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDOptionu8_14().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "N15", ron: "N15", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "f16", ron: "f16", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "f17", ron: "f17", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MDOptionu8_17().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "f18", ron: "f18", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "ключ_19", ron: "ключ_19", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "type20", ron: "type20", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MDOptionu8 { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MDOptionu8_2() -> Option<u8> { <Option<u8> as Subject>::from_val(&vcore::gen::sample::<Option<u8>>(2707)) }
fn mw_MDOptionu8_10() -> Option<u8> { <Option<u8> as Subject>::from_val(&vcore::gen::sample::<Option<u8>>(2715)) }
fn mw_MDOptionu8_14() -> Option<u8> { <Option<u8> as Subject>::from_val(&vcore::gen::sample::<Option<u8>>(2719)) }
fn mw_MDOptionu8_17() -> Option<u8> { <Option<u8> as Subject>::from_val(&vcore::gen::sample::<Option<u8>>(2722)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct MNOptionu8 {
    #[nserde(default = 7)] #[nserde(skip)] pub f0: Option<u8>,
    #[nserde(skip, rename = "ключ_1", default)] pub f1: Option<u8>,
    #[nserde(rename = "type2")] pub f2: Option<u8>,
    #[nserde(skip, default)] pub f3: Option<u8>,
    #[nserde(rename = "some_4")] #[nserde(default_with = "mw_MNOptionu8_4")] pub f4: Option<u8>,
    #[nserde(serialize_none_as_null, default = 7, rename = "_5")] pub f5: Option<u8>,
    #[nserde(default = 7)] pub f6: Option<u8>,
    #[nserde(default = 7, rename = "ключ_7")] pub f7: Option<u8>,
    pub f8: Option<u8>,
    #[nserde(skip)] pub f9: Option<u8>,
    #[nserde(rename = "some_10")] #[nserde(skip)] pub f10: Option<u8>,
    #[nserde(default_with = "mw_MNOptionu8_11")] pub f11: Option<u8>,
    #[nserde(default_with = "mw_MNOptionu8_12")] #[nserde(skip)] pub f12: Option<u8>,
    #[nserde(serialize_none_as_null)] #[nserde(default)] pub f13: Option<u8>,
    #[nserde(default = 7, serialize_none_as_null)] pub f14: Option<u8>,
    #[nserde(rename = "N15")] #[nserde(default)] pub f15: Option<u8>,
    #[nserde(default_with = "mw_MNOptionu8_16")] #[nserde(serialize_none_as_null)] pub f16: Option<u8>,
    #[nserde(serialize_none_as_null)] pub f17: Option<u8>,
    #[nserde(serialize_none_as_null)] #[nserde(rename = "Ren18")] pub f18: Option<u8>,
    #[nserde(default)] pub f19: Option<u8>,
    #[nserde(skip, rename = "type20", default = 7)] pub f20: Option<u8>,
}
impl Subject for MNOptionu8  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MNOptionu8", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "type2", ron: "type2", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "f3", ron: "f3", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "some_4", ron: "some_4", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MNOptionu8_4().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "_5", ron: "_5", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "ключ_7", ron: "ключ_7", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "some_10", ron: "some_10", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MNOptionu8_11().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MNOptionu8_12().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "N15", ron: "N15", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "f16", ron: "f16", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MNOptionu8_16().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "f17", ron: "f17", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "f19", ron: "f19", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "type20", ron: "type20", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MNOptionu8 { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MNOptionu8_4() -> Option<u8> { <Option<u8> as Subject>::from_val(&vcore::gen::sample::<Option<u8>>(2740)) }
fn mw_MNOptionu8_11() -> Option<u8> { <Option<u8> as Subject>::from_val(&vcore::gen::sample::<Option<u8>>(2747)) }
fn mw_MNOptionu8_12() -> Option<u8> { <Option<u8> as Subject>::from_val(&vcore::gen::sample::<Option<u8>>(2748)) }
fn mw_MNOptionu8_16() -> Option<u8> { <Option<u8> as Subject>::from_val(&vcore::gen::sample::<Option<u8>>(2752)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default, serialize_none_as_null)]
pub struct MBOptionu8 {
    #[nserde(default)] pub f0: Option<u8>,
    #[nserde(default = 7, skip, rename = "ключ_1")] pub f1: Option<u8>,
    #[nserde(skip, default)] pub f2: Option<u8>,
    #[nserde(skip)] #[nserde(default)] #[nserde(rename = "N3")] pub f3: Option<u8>,
    #[nserde(default_with = "mw_MBOptionu8_4")] pub f4: Option<u8>,
    #[nserde(serialize_none_as_null, default = 7, rename = "_5")] pub f5: Option<u8>,
    #[nserde(skip, default = 7)] pub f6: Option<u8>,
    #[nserde(default = 7)] pub f7: Option<u8>,
    #[nserde(serialize_none_as_null)] pub f8: Option<u8>,
    #[nserde(serialize_none_as_null, rename = "N9")] pub f9: Option<u8>,
    #[nserde(serialize_none_as_null)] #[nserde(default_with = "mw_MBOptionu8_10")] pub f10: Option<u8>,
    #[nserde(serialize_none_as_null, default = 7)] pub f11: Option<u8>,
    #[nserde(serialize_none_as_null)] #[nserde(default)] pub f12: Option<u8>,
    #[nserde(skip)] pub f13: Option<u8>,
    #[nserde(rename = "type14", default_with = "mw_MBOptionu8_14")] pub f14: Option<u8>,
    #[nserde(skip)] #[nserde(rename = "N15")] pub f15: Option<u8>,
    #[nserde(rename = "some_16")] pub f16: Option<u8>,
    #[nserde(default_with = "mw_MBOptionu8_17", skip)] pub f17: Option<u8>,
    #[nserde(rename = "Ren18", default)] pub f18: Option<u8>,
    #[nserde(rename = "ключ_19", default = 7)] pub f19: Option<u8>,
    pub f20: Option<u8>,
}
impl Subject for MBOptionu8  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MBOptionu8", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MBOptionu8_4().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "_5", ron: "_5", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "N9", ron: "N9", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MBOptionu8_10().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MBOptionu8_14().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "N15", ron: "N15", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "some_16", ron: "some_16", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "f17", ron: "f17", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MBOptionu8_17().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "ключ_19", ron: "ключ_19", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "f20", ron: "f20", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MBOptionu8 { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MBOptionu8_4() -> Option<u8> { <Option<u8> as Subject>::from_val(&vcore::gen::sample::<Option<u8>>(2771)) }
fn mw_MBOptionu8_10() -> Option<u8> { <Option<u8> as Subject>::from_val(&vcore::gen::sample::<Option<u8>>(2777)) }
fn mw_MBOptionu8_14() -> Option<u8> { <Option<u8> as Subject>::from_val(&vcore::gen::sample::<Option<u8>>(2781)) }
fn mw_MBOptionu8_17() -> Option<u8> { <Option<u8> as Subject>::from_val(&vcore::gen::sample::<Option<u8>>(2784)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum MEOptionu8 {
    V0 { #[nserde(default_with = "mw_MEOptionu8_2")] f2: Vec<String>, f1: Vec<String>, f0: Option<u8> },
    V1 { #[nserde(default_with = "mw_MEOptionu8_5")] f5: Option<String> },
    V2 { #[nserde(default)] f6: Option<u8>, f7: Option<String>, #[nserde(default, skip)] f8: Option<String> },
    V3 { #[nserde(skip)] f11: String, #[nserde(default = 7)] f9: Option<u8>, f10: String },
    V4 { f13: Option<String>, #[nserde(skip, default)] f14: Option<String>, #[nserde(default_with = "mw_MEOptionu8_12")] f12: Option<u8> },
    V5 { #[nserde(skip)] f15: Option<u8> },
    V6 { f19: Option<MSmall>, #[nserde(default = "MSmall { x: 9, y: Some(true) }")] #[nserde(skip)] f20: Option<MSmall>, #[nserde(rename = "Ren18")] #[nserde(default)] f18: Option<u8> },
    V7 { f22: bool, #[nserde(default = 7)] #[nserde(rename = "N21")] f21: Option<u8>, #[nserde(skip)] #[nserde(default = "true")] #[nserde(rename = "_23")] f23: bool },
    V8 { f25: Vec<String>, #[nserde(default)] f26: Vec<String>, #[nserde(default_with = "mw_MEOptionu8_24", rename = "Ren24")] f24: Option<u8> },
    V9 { #[nserde(rename = "_29")] f29: MKind, f28: MKind },
    V10 { f31: MKind, #[nserde(default)] #[nserde(skip)] f30: Option<u8> },
    V11 { f34: Vec<String>, #[nserde(skip, default = 7)] f33: Option<u8> },
    V12 { #[nserde(skip)] #[nserde(default_with = "mw_MEOptionu8_38")] f38: Option<Vec<String>>, f37: Option<Vec<String>>, #[nserde(skip)] #[nserde(default_with = "mw_MEOptionu8_36")] f36: Option<u8> },
    V13 { f40: Vec<String>, #[nserde(default)] #[nserde(skip)] #[nserde(rename = "N39")] f39: Option<u8>, #[nserde(default)] f41: Vec<String> },
    V14 { f43: (u8, String), #[nserde(default = 7, skip, rename = "Ren42")] f42: Option<u8>, #[nserde(rename = "type44")] f44: (u8, String) },
    V15 { #[nserde(default_with = "mw_MEOptionu8_47")] #[nserde(rename = "_47")] f47: Option<u8>, #[nserde(serialize_none_as_null)] f45: Option<u8>, f46: Option<u8> },
    V16 { #[nserde(default_with = "mw_MEOptionu8_50")] f50: BTreeMap<String, u8>, #[nserde(serialize_none_as_null)] #[nserde(rename = "Ren48")] f48: Option<u8> },
    V17 { f52: String, #[nserde(default_with = "mw_MEOptionu8_53")] f53: String, #[nserde(serialize_none_as_null, default)] f51: Option<u8> },
    V18 { #[nserde(serialize_none_as_null, default = 7)] f54: Option<u8>, #[nserde(default)] #[nserde(skip)] f56: Vec<u16>, f55: Vec<u16> },
    V19 { #[nserde(default)] f59: Option<bool>, f58: Option<bool>, #[nserde(default_with = "mw_MEOptionu8_57", serialize_none_as_null)] f57: Option<u8> },
    V20 { #[nserde(rename = "type62")] f62: Option<String>, f61: Option<String>, #[nserde(serialize_none_as_null, rename = "Ren60", default = 7)] f60: Option<u8> },
}
impl Subject for MEOptionu8 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "MEOptionu8", variants: &[VariantDef { name: "V0", json: "V0", kind: Kind::Named, fields: &[FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionu8_2().to_val()), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] }, VariantDef { name: "V1", json: "V1", kind: Kind::Named, fields: &[FieldDef { name: "f5", json: "f5", ron: "f5", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionu8_5().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }] }, VariantDef { name: "V2", json: "V2", kind: Kind::Named, fields: &[FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }, FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }] }, VariantDef { name: "V3", json: "V3", kind: Kind::Named, fields: &[FieldDef { name: "f11", json: "f11", ron: "f11", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f9", json: "f9", ron: "f9", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }, FieldDef { name: "f10", json: "f10", ron: "f10", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V4", json: "V4", kind: Kind::Named, fields: &[FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f14", json: "f14", ron: "f14", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionu8_12().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] }, VariantDef { name: "V5", json: "V5", kind: Kind::Named, fields: &[FieldDef { name: "f15", json: "f15", ron: "f15", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] }, VariantDef { name: "V6", json: "V6", kind: Kind::Named, fields: &[FieldDef { name: "f19", json: "f19", ron: "f19", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }, FieldDef { name: "f20", json: "f20", ron: "f20", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }, FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] }, VariantDef { name: "V7", json: "V7", kind: Kind::Named, fields: &[FieldDef { name: "f22", json: "f22", ron: "f22", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f21", json: "N21", ron: "N21", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }, FieldDef { name: "f23", json: "_23", ron: "_23", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: bool = true; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] }, VariantDef { name: "V8", json: "V8", kind: Kind::Named, fields: &[FieldDef { name: "f25", json: "f25", ron: "f25", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f26", json: "f26", ron: "f26", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f24", json: "Ren24", ron: "Ren24", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionu8_24().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] }, VariantDef { name: "V9", json: "V9", kind: Kind::Named, fields: &[FieldDef { name: "f29", json: "_29", ron: "_29", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }, FieldDef { name: "f28", json: "f28", ron: "f28", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }] }, VariantDef { name: "V10", json: "V10", kind: Kind::Named, fields: &[FieldDef { name: "f31", json: "f31", ron: "f31", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }, FieldDef { name: "f30", json: "f30", ron: "f30", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] }, VariantDef { name: "V11", json: "V11", kind: Kind::Named, fields: &[FieldDef { name: "f34", json: "f34", ron: "f34", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f33", json: "f33", ron: "f33", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] }, VariantDef { name: "V12", json: "V12", kind: Kind::Named, fields: &[FieldDef { name: "f38", json: "f38", ron: "f38", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEOptionu8_38().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f37", json: "f37", ron: "f37", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f36", json: "f36", ron: "f36", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEOptionu8_36().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] }, VariantDef { name: "V13", json: "V13", kind: Kind::Named, fields: &[FieldDef { name: "f40", json: "f40", ron: "f40", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f39", json: "N39", ron: "N39", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }, FieldDef { name: "f41", json: "f41", ron: "f41", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }] }, VariantDef { name: "V14", json: "V14", kind: Kind::Named, fields: &[FieldDef { name: "f43", json: "f43", ron: "f43", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }, FieldDef { name: "f42", json: "Ren42", ron: "Ren42", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }, FieldDef { name: "f44", json: "type44", ron: "type44", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }] }, VariantDef { name: "V15", json: "V15", kind: Kind::Named, fields: &[FieldDef { name: "f47", json: "_47", ron: "_47", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionu8_47().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }, FieldDef { name: "f45", json: "f45", ron: "f45", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }, FieldDef { name: "f46", json: "f46", ron: "f46", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] }, VariantDef { name: "V16", json: "V16", kind: Kind::Named, fields: &[FieldDef { name: "f50", json: "f50", ron: "f50", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionu8_50().to_val()), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }, FieldDef { name: "f48", json: "Ren48", ron: "Ren48", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] }, VariantDef { name: "V17", json: "V17", kind: Kind::Named, fields: &[FieldDef { name: "f52", json: "f52", ron: "f52", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f53", json: "f53", ron: "f53", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionu8_53().to_val()), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f51", json: "f51", ron: "f51", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] }, VariantDef { name: "V18", json: "V18", kind: Kind::Named, fields: &[FieldDef { name: "f54", json: "f54", ron: "f54", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }, FieldDef { name: "f56", json: "f56", ron: "f56", ty: <Vec<u16> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }, FieldDef { name: "f55", json: "f55", ron: "f55", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }] }, VariantDef { name: "V19", json: "V19", kind: Kind::Named, fields: &[FieldDef { name: "f59", json: "f59", ron: "f59", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }, FieldDef { name: "f58", json: "f58", ron: "f58", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }, FieldDef { name: "f57", json: "f57", ron: "f57", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionu8_57().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] }, VariantDef { name: "V20", json: "V20", kind: Kind::Named, fields: &[FieldDef { name: "f62", json: "type62", ron: "type62", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f61", json: "f61", ron: "f61", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f60", json: "Ren60", ron: "Ren60", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<u8> = Some(7); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::V0 { f2: Subject::from_val(&x_[0]), f1: Subject::from_val(&x_[1]), f0: Subject::from_val(&x_[2]) }, 1 => Self::V1 { f5: Subject::from_val(&x_[0]) }, 2 => Self::V2 { f6: Subject::from_val(&x_[0]), f7: Subject::from_val(&x_[1]), f8: Subject::from_val(&x_[2]) }, 3 => Self::V3 { f11: Subject::from_val(&x_[0]), f9: Subject::from_val(&x_[1]), f10: Subject::from_val(&x_[2]) }, 4 => Self::V4 { f13: Subject::from_val(&x_[0]), f14: Subject::from_val(&x_[1]), f12: Subject::from_val(&x_[2]) }, 5 => Self::V5 { f15: Subject::from_val(&x_[0]) }, 6 => Self::V6 { f19: Subject::from_val(&x_[0]), f20: Subject::from_val(&x_[1]), f18: Subject::from_val(&x_[2]) }, 7 => Self::V7 { f22: Subject::from_val(&x_[0]), f21: Subject::from_val(&x_[1]), f23: Subject::from_val(&x_[2]) }, 8 => Self::V8 { f25: Subject::from_val(&x_[0]), f26: Subject::from_val(&x_[1]), f24: Subject::from_val(&x_[2]) }, 9 => Self::V9 { f29: Subject::from_val(&x_[0]), f28: Subject::from_val(&x_[1]) }, 10 => Self::V10 { f31: Subject::from_val(&x_[0]), f30: Subject::from_val(&x_[1]) }, 11 => Self::V11 { f34: Subject::from_val(&x_[0]), f33: Subject::from_val(&x_[1]) }, 12 => Self::V12 { f38: Subject::from_val(&x_[0]), f37: Subject::from_val(&x_[1]), f36: Subject::from_val(&x_[2]) }, 13 => Self::V13 { f40: Subject::from_val(&x_[0]), f39: Subject::from_val(&x_[1]), f41: Subject::from_val(&x_[2]) }, 14 => Self::V14 { f43: Subject::from_val(&x_[0]), f42: Subject::from_val(&x_[1]), f44: Subject::from_val(&x_[2]) }, 15 => Self::V15 { f47: Subject::from_val(&x_[0]), f45: Subject::from_val(&x_[1]), f46: Subject::from_val(&x_[2]) }, 16 => Self::V16 { f50: Subject::from_val(&x_[0]), f48: Subject::from_val(&x_[1]) }, 17 => Self::V17 { f52: Subject::from_val(&x_[0]), f53: Subject::from_val(&x_[1]), f51: Subject::from_val(&x_[2]) }, 18 => Self::V18 { f54: Subject::from_val(&x_[0]), f56: Subject::from_val(&x_[1]), f55: Subject::from_val(&x_[2]) }, 19 => Self::V19 { f59: Subject::from_val(&x_[0]), f58: Subject::from_val(&x_[1]), f57: Subject::from_val(&x_[2]) }, 20 => Self::V20 { f62: Subject::from_val(&x_[0]), f61: Subject::from_val(&x_[1]), f60: Subject::from_val(&x_[2]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::V0 { f2: b0, f1: b1, f0: b2 } => Val::Enum(0, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V1 { f5: b0 } => Val::Enum(1, vec![b0.to_val()]), Self::V2 { f6: b0, f7: b1, f8: b2 } => Val::Enum(2, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V3 { f11: b0, f9: b1, f10: b2 } => Val::Enum(3, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V4 { f13: b0, f14: b1, f12: b2 } => Val::Enum(4, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V5 { f15: b0 } => Val::Enum(5, vec![b0.to_val()]), Self::V6 { f19: b0, f20: b1, f18: b2 } => Val::Enum(6, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V7 { f22: b0, f21: b1, f23: b2 } => Val::Enum(7, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V8 { f25: b0, f26: b1, f24: b2 } => Val::Enum(8, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V9 { f29: b0, f28: b1 } => Val::Enum(9, vec![b0.to_val(), b1.to_val()]), Self::V10 { f31: b0, f30: b1 } => Val::Enum(10, vec![b0.to_val(), b1.to_val()]), Self::V11 { f34: b0, f33: b1 } => Val::Enum(11, vec![b0.to_val(), b1.to_val()]), Self::V12 { f38: b0, f37: b1, f36: b2 } => Val::Enum(12, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V13 { f40: b0, f39: b1, f41: b2 } => Val::Enum(13, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V14 { f43: b0, f42: b1, f44: b2 } => Val::Enum(14, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V15 { f47: b0, f45: b1, f46: b2 } => Val::Enum(15, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V16 { f50: b0, f48: b1 } => Val::Enum(16, vec![b0.to_val(), b1.to_val()]), Self::V17 { f52: b0, f53: b1, f51: b2 } => Val::Enum(17, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V18 { f54: b0, f56: b1, f55: b2 } => Val::Enum(18, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V19 { f59: b0, f58: b1, f57: b2 } => Val::Enum(19, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V20 { f62: b0, f61: b1, f60: b2 } => Val::Enum(20, vec![b0.to_val(), b1.to_val(), b2.to_val()]), } }
}
fn mw_MEOptionu8_2() -> Vec<String> { <Vec<String> as Subject>::from_val(&vcore::gen::sample::<Vec<String>>(2800)) }
fn mw_MEOptionu8_5() -> Option<String> { <Option<String> as Subject>::from_val(&vcore::gen::sample::<Option<String>>(2803)) }
fn mw_MEOptionu8_12() -> Option<u8> { <Option<u8> as Subject>::from_val(&vcore::gen::sample::<Option<u8>>(2810)) }
fn mw_MEOptionu8_24() -> Option<u8> { <Option<u8> as Subject>::from_val(&vcore::gen::sample::<Option<u8>>(2822)) }
fn mw_MEOptionu8_35() -> Vec<String> { <Vec<String> as Subject>::from_val(&vcore::gen::sample::<Vec<String>>(2833)) }
fn mw_MEOptionu8_36() -> Option<u8> { <Option<u8> as Subject>::from_val(&vcore::gen::sample::<Option<u8>>(2834)) }
fn mw_MEOptionu8_38() -> Option<Vec<String>> { <Option<Vec<String>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<String>>>(2836)) }
fn mw_MEOptionu8_47() -> Option<u8> { <Option<u8> as Subject>::from_val(&vcore::gen::sample::<Option<u8>>(2845)) }
fn mw_MEOptionu8_50() -> BTreeMap<String, u8> { <BTreeMap<String, u8> as Subject>::from_val(&vcore::gen::sample::<BTreeMap<String, u8>>(2848)) }
fn mw_MEOptionu8_53() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(2851)) }
fn mw_MEOptionu8_57() -> Option<u8> { <Option<u8> as Subject>::from_val(&vcore::gen::sample::<Option<u8>>(2855)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct MSOptionString {
    #[nserde(default)] #[nserde(serialize_none_as_null)] pub f0: Option<String>,
    #[nserde(skip)] #[nserde(default = "x")] pub f1: Option<String>,
    #[nserde(serialize_none_as_null)] pub f2: Option<String>,
    #[nserde(default = "x")] #[nserde(skip)] #[nserde(rename = "N3")] pub f3: Option<String>,
    #[nserde(rename = "some_4", default = "x")] pub f4: Option<String>,
    pub f5: Option<String>,
    #[nserde(default_with = "mw_MSOptionString_6")] #[nserde(rename = "Ren6")] pub f6: Option<String>,
    #[nserde(serialize_none_as_null)] #[nserde(default = "x")] pub f7: Option<String>,
    #[nserde(skip, default)] pub f8: Option<String>,
    #[nserde(default)] pub f9: Option<String>,
    #[nserde(default_with = "mw_MSOptionString_10", skip)] pub f10: Option<String>,
    #[nserde(default_with = "mw_MSOptionString_11")] #[nserde(serialize_none_as_null)] pub f11: Option<String>,
    #[nserde(skip)] pub f12: Option<String>,
    #[nserde(skip, rename = "ключ_13")] pub f13: Option<String>,
    #[nserde(default, rename = "type14")] pub f14: Option<String>,
    #[nserde(default_with = "mw_MSOptionString_15")] pub f15: Option<String>,
    #[nserde(default, rename = "some_16", skip)] pub f16: Option<String>,
    #[nserde(default = "x")] pub f17: Option<String>,
    #[nserde(serialize_none_as_null)] #[nserde(rename = "Ren18")] pub f18: Option<String>,
    #[nserde(serialize_none_as_null, default = "x", rename = "ключ_19")] pub f19: Option<String>,
    #[nserde(rename = "type20")] pub f20: Option<String>,
}
impl Subject for MSOptionString  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MSOptionString", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "some_4", ron: "some_4", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSOptionString_6().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MSOptionString_10().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSOptionString_11().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "ключ_13", ron: "ключ_13", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "f15", ron: "f15", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSOptionString_15().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "some_16", ron: "some_16", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "f17", ron: "f17", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "ключ_19", ron: "ключ_19", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "type20", ron: "type20", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MSOptionString { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MSOptionString_6() -> Option<String> { <Option<String> as Subject>::from_val(&vcore::gen::sample::<Option<String>>(2835)) }
fn mw_MSOptionString_10() -> Option<String> { <Option<String> as Subject>::from_val(&vcore::gen::sample::<Option<String>>(2839)) }
fn mw_MSOptionString_11() -> Option<String> { <Option<String> as Subject>::from_val(&vcore::gen::sample::<Option<String>>(2840)) }
fn mw_MSOptionString_15() -> Option<String> { <Option<String> as Subject>::from_val(&vcore::gen::sample::<Option<String>>(2844)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default)]
pub struct MDOptionString {
    #[nserde(default = "x", serialize_none_as_null, rename = "Ren0")] pub f0: Option<String>,
    #[nserde(default = "x")] pub f1: Option<String>,
    #[nserde(skip, default)] pub f2: Option<String>,
    #[nserde(serialize_none_as_null, rename = "N3")] pub f3: Option<String>,
    #[nserde(skip)] #[nserde(default_with = "mw_MDOptionString_4")] pub f4: Option<String>,
    #[nserde(default = "x", rename = "_5", skip)] pub f5: Option<String>,
    #[nserde(default)] #[nserde(serialize_none_as_null)] pub f6: Option<String>,
    #[nserde(rename = "ключ_7")] pub f7: Option<String>,
    #[nserde(rename = "type8", default_with = "mw_MDOptionString_8")] pub f8: Option<String>,
    #[nserde(skip)] #[nserde(rename = "N9")] pub f9: Option<String>,
    #[nserde(default = "x", skip)] pub f10: Option<String>,
    #[nserde(serialize_none_as_null)] #[nserde(default_with = "mw_MDOptionString_11")] pub f11: Option<String>,
    pub f12: Option<String>,
    #[nserde(serialize_none_as_null)] pub f13: Option<String>,
    #[nserde(default, skip, rename = "type14")] pub f14: Option<String>,
    #[nserde(default_with = "mw_MDOptionString_15")] pub f15: Option<String>,
    #[nserde(skip)] pub f16: Option<String>,
    #[nserde(default)] pub f17: Option<String>,
    #[nserde(default = "x")] #[nserde(rename = "Ren18")] pub f18: Option<String>,
    #[nserde(rename = "ключ_19", default)] pub f19: Option<String>,
    #[nserde(serialize_none_as_null)] #[nserde(default = "x")] pub f20: Option<String>,
}
impl Subject for MDOptionString  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MDOptionString", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "Ren0", ron: "Ren0", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MDOptionString_4().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "_5", ron: "_5", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "ключ_7", ron: "ключ_7", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "type8", ron: "type8", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDOptionString_8().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "N9", ron: "N9", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDOptionString_11().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "f15", ron: "f15", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDOptionString_15().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "f16", ron: "f16", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "f17", ron: "f17", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "ключ_19", ron: "ключ_19", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "f20", ron: "f20", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MDOptionString { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MDOptionString_4() -> Option<String> { <Option<String> as Subject>::from_val(&vcore::gen::sample::<Option<String>>(2864)) }
fn mw_MDOptionString_8() -> Option<String> { <Option<String> as Subject>::from_val(&vcore::gen::sample::<Option<String>>(2868)) }
fn mw_MDOptionString_11() -> Option<String> { <Option<String> as Subject>::from_val(&vcore::gen::sample::<Option<String>>(2871)) }
fn mw_MDOptionString_15() -> Option<String> { <Option<String> as Subject>::from_val(&vcore::gen::sample::<Option<String>>(2875)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct MNOptionString {
    #[nserde(rename = "Ren0", default = "x", skip)] pub f0: Option<String>,
    #[nserde(default_with = "mw_MNOptionString_1")] pub f1: Option<String>,
    #[nserde(rename = "type2")] #[nserde(skip)] #[nserde(default)] pub f2: Option<String>,
    #[nserde(default = "x", serialize_none_as_null)] pub f3: Option<String>,
    #[nserde(default, serialize_none_as_null)] pub f4: Option<String>,
    #[nserde(skip)] #[nserde(default = "x")] pub f5: Option<String>,
    #[nserde(rename = "Ren6", default)] pub f6: Option<String>,
    #[nserde(default = "x")] pub f7: Option<String>,
    #[nserde(serialize_none_as_null)] #[nserde(default_with = "mw_MNOptionString_8")] pub f8: Option<String>,
    #[nserde(rename = "N9", skip)] pub f9: Option<String>,
    #[nserde(serialize_none_as_null)] #[nserde(rename = "some_10")] pub f10: Option<String>,
    #[nserde(skip)] pub f11: Option<String>,
    #[nserde(default_with = "mw_MNOptionString_12", skip)] pub f12: Option<String>,
    #[nserde(rename = "ключ_13", default_with = "mw_MNOptionString_13")] pub f13: Option<String>,
    #[nserde(default = "x")] #[nserde(rename = "type14")] #[nserde(serialize_none_as_null)] pub f14: Option<String>,
    #[nserde(rename = "N15")] pub f15: Option<String>,
    #[nserde(serialize_none_as_null)] pub f16: Option<String>,
    pub f17: Option<String>,
    #[nserde(default)] pub f18: Option<String>,
    #[nserde(default, skip)] pub f19: Option<String>,
    #[nserde(rename = "type20", default = "x")] pub f20: Option<String>,
}
impl Subject for MNOptionString  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MNOptionString", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "Ren0", ron: "Ren0", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MNOptionString_1().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "type2", ron: "type2", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "f3", ron: "f3", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MNOptionString_8().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "N9", ron: "N9", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "some_10", ron: "some_10", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MNOptionString_12().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "ключ_13", ron: "ключ_13", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MNOptionString_13().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "N15", ron: "N15", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "f16", ron: "f16", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "f17", ron: "f17", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "f18", ron: "f18", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "f19", ron: "f19", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "type20", ron: "type20", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MNOptionString { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MNOptionString_1() -> Option<String> { <Option<String> as Subject>::from_val(&vcore::gen::sample::<Option<String>>(2892)) }
fn mw_MNOptionString_8() -> Option<String> { <Option<String> as Subject>::from_val(&vcore::gen::sample::<Option<String>>(2899)) }
fn mw_MNOptionString_12() -> Option<String> { <Option<String> as Subject>::from_val(&vcore::gen::sample::<Option<String>>(2903)) }
fn mw_MNOptionString_13() -> Option<String> { <Option<String> as Subject>::from_val(&vcore::gen::sample::<Option<String>>(2904)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default, serialize_none_as_null)]
pub struct MBOptionString {
    #[nserde(skip)] pub f0: Option<String>,
    #[nserde(skip)] #[nserde(default = "x")] pub f1: Option<String>,
    #[nserde(default, serialize_none_as_null)] pub f2: Option<String>,
    #[nserde(default_with = "mw_MBOptionString_3")] #[nserde(rename = "N3")] pub f3: Option<String>,
    #[nserde(serialize_none_as_null, default_with = "mw_MBOptionString_4")] pub f4: Option<String>,
    #[nserde(serialize_none_as_null, rename = "_5")] pub f5: Option<String>,
    #[nserde(default = "x")] pub f6: Option<String>,
    #[nserde(rename = "ключ_7")] #[nserde(default)] pub f7: Option<String>,
    #[nserde(default = "x")] #[nserde(rename = "type8")] #[nserde(serialize_none_as_null)] pub f8: Option<String>,
    #[nserde(rename = "N9")] pub f9: Option<String>,
    #[nserde(default = "x")] #[nserde(rename = "some_10")] #[nserde(skip)] pub f10: Option<String>,
    #[nserde(serialize_none_as_null)] pub f11: Option<String>,
    #[nserde(serialize_none_as_null)] #[nserde(default = "x")] pub f12: Option<String>,
    #[nserde(default_with = "mw_MBOptionString_13")] pub f13: Option<String>,
    pub f14: Option<String>,
    #[nserde(rename = "N15", skip)] pub f15: Option<String>,
    #[nserde(skip)] #[nserde(rename = "some_16")] #[nserde(default)] pub f16: Option<String>,
    #[nserde(default)] #[nserde(skip)] pub f17: Option<String>,
    #[nserde(rename = "Ren18", default = "x")] pub f18: Option<String>,
    #[nserde(default)] pub f19: Option<String>,
    #[nserde(skip, default_with = "mw_MBOptionString_20")] pub f20: Option<String>,
}
impl Subject for MBOptionString  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MBOptionString", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MBOptionString_3().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MBOptionString_4().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "_5", ron: "_5", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "ключ_7", ron: "ключ_7", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "type8", ron: "type8", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "N9", ron: "N9", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "some_10", ron: "some_10", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MBOptionString_13().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "N15", ron: "N15", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "some_16", ron: "some_16", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "f17", ron: "f17", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "f19", ron: "f19", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "f20", ron: "f20", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MBOptionString_20().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MBOptionString { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MBOptionString_3() -> Option<String> { <Option<String> as Subject>::from_val(&vcore::gen::sample::<Option<String>>(2925)) }
fn mw_MBOptionString_4() -> Option<String> { <Option<String> as Subject>::from_val(&vcore::gen::sample::<Option<String>>(2926)) }
fn mw_MBOptionString_13() -> Option<String> { <Option<String> as Subject>::from_val(&vcore::gen::sample::<Option<String>>(2935)) }
fn mw_MBOptionString_20() -> Option<String> { <Option<String> as Subject>::from_val(&vcore::gen::sample::<Option<String>>(2942)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum MEOptionString {
    V0 { f1: i16, #[nserde(default)] #[nserde(rename = "type2")] f2: i16, f0: Option<String> },
    V1 { f4: MKind, #[nserde(rename = "N3")] f3: Option<String>, #[nserde(rename = "_5", skip)] f5: MKind },
    V2 { #[nserde(default)] f6: Option<String>, #[nserde(default)] #[nserde(skip)] f8: Option<u8>, f7: Option<u8> },
    V3 { #[nserde(default = "x")] f9: Option<String>, #[nserde(rename = "_11", default = r#"vec![String::from("a\n")]"#)] f11: Option<Vec<String>>, f10: Option<Vec<String>> },
    V4 { f13: Option<Vec<Option<u8>>>, #[nserde(default_with = "mw_MEOptionString_12")] f12: Option<String>, #[nserde(default, skip)] f14: Option<Vec<Option<u8>>> },
    V5 { f16: BTreeMap<String, u8>, #[nserde(rename = "_17", default = "mdflt()")] f17: BTreeMap<String, u8>, #[nserde(skip)] f15: Option<String> },
    V6 { #[nserde(rename = "Ren18")] #[nserde(default)] f18: Option<String>, f19: bool },
    V7 { f22: BTreeMap<String, u8>, #[nserde(default = "x")] #[nserde(rename = "N21")] f21: Option<String>, #[nserde(skip)] #[nserde(rename = "_23")] #[nserde(default = "mdflt()")] f23: BTreeMap<String, u8> },
    V8 { #[nserde(default = -7)] f26: i16, #[nserde(rename = "Ren24", default_with = "mw_MEOptionString_24")] f24: Option<String>, f25: i16 },
    V9 { #[nserde(skip, rename = "N27")] f27: Option<String>, f28: MSmall, #[nserde(default)] #[nserde(skip)] f29: MSmall },
    V10 { #[nserde(default)] #[nserde(skip)] f30: Option<String>, f31: String, #[nserde(rename = "type32", skip)] f32: String },
    V11 { #[nserde(skip, default = -0.5)] f35: Option<f64>, f34: Option<f64>, #[nserde(skip)] #[nserde(default = "x")] f33: Option<String> },
    V12 { #[nserde(skip)] #[nserde(default_with = "mw_MEOptionString_36")] f36: Option<String>, #[nserde(skip, rename = "type38", default = "vec![1, 2]")] f38: Vec<u16> },
    V13 { #[nserde(rename = "N39")] #[nserde(skip)] #[nserde(default)] f39: Option<String>, f40: Vec<u16>, #[nserde(rename = "_41")] #[nserde(default = "vec![1, 2]")] f41: Vec<u16> },
    V14 { f43: MSmall, #[nserde(skip)] f44: MSmall, #[nserde(default = "x", rename = "Ren42", skip)] f42: Option<String> },
    V15 { #[nserde(serialize_none_as_null)] f45: Option<String>, #[nserde(default, skip)] f47: BTreeMap<String, u8> },
    V16 { #[nserde(rename = "Ren48", serialize_none_as_null)] f48: Option<String>, #[nserde(rename = "type50")] f50: Option<u8>, f49: Option<u8> },
    V17 { #[nserde(skip)] f53: i64, #[nserde(default)] #[nserde(serialize_none_as_null)] f51: Option<String>, f52: i64 },
    V18 { f55: Option<String>, #[nserde(serialize_none_as_null, default = "x")] f54: Option<String>, #[nserde(default, skip)] f56: Option<String> },
    V19 { #[nserde(serialize_none_as_null, default_with = "mw_MEOptionString_57")] f57: Option<String>, #[nserde(skip, default)] f59: i16 },
    V20 { #[nserde(serialize_none_as_null, rename = "Ren60", default = "x")] f60: Option<String>, f61: Option<Vec<String>>, #[nserde(default)] f62: Option<Vec<String>> },
}
impl Subject for MEOptionString {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "MEOptionString", variants: &[VariantDef { name: "V0", json: "V0", kind: Kind::Named, fields: &[FieldDef { name: "f1", json: "f1", ron: "f1", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }, FieldDef { name: "f2", json: "type2", ron: "type2", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }, FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }] }, VariantDef { name: "V1", json: "V1", kind: Kind::Named, fields: &[FieldDef { name: "f4", json: "f4", ron: "f4", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }, FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f5", json: "_5", ron: "_5", ty: <MKind as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }] }, VariantDef { name: "V2", json: "V2", kind: Kind::Named, fields: &[FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }, FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] }, VariantDef { name: "V3", json: "V3", kind: Kind::Named, fields: &[FieldDef { name: "f9", json: "f9", ron: "f9", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f11", json: "_11", ron: "_11", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }] }, VariantDef { name: "V4", json: "V4", kind: Kind::Named, fields: &[FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionString_12().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f14", json: "f14", ron: "f14", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }] }, VariantDef { name: "V5", json: "V5", kind: Kind::Named, fields: &[FieldDef { name: "f16", json: "f16", ron: "f16", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }, FieldDef { name: "f17", json: "_17", ron: "_17", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: BTreeMap<String, u8> = mdflt(); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }, FieldDef { name: "f15", json: "f15", ron: "f15", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }] }, VariantDef { name: "V6", json: "V6", kind: Kind::Named, fields: &[FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f19", json: "f19", ron: "f19", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] }, VariantDef { name: "V7", json: "V7", kind: Kind::Named, fields: &[FieldDef { name: "f22", json: "f22", ron: "f22", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }, FieldDef { name: "f21", json: "N21", ron: "N21", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f23", json: "_23", ron: "_23", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: BTreeMap<String, u8> = mdflt(); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }] }, VariantDef { name: "V8", json: "V8", kind: Kind::Named, fields: &[FieldDef { name: "f26", json: "f26", ron: "f26", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: i16 = -7; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }, FieldDef { name: "f24", json: "Ren24", ron: "Ren24", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionString_24().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f25", json: "f25", ron: "f25", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }] }, VariantDef { name: "V9", json: "V9", kind: Kind::Named, fields: &[FieldDef { name: "f27", json: "N27", ron: "N27", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f28", json: "f28", ron: "f28", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }, FieldDef { name: "f29", json: "f29", ron: "f29", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }] }, VariantDef { name: "V10", json: "V10", kind: Kind::Named, fields: &[FieldDef { name: "f30", json: "f30", ron: "f30", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f31", json: "f31", ron: "f31", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f32", json: "type32", ron: "type32", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V11", json: "V11", kind: Kind::Named, fields: &[FieldDef { name: "f35", json: "f35", ron: "f35", ty: <Option<f64> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<f64> = Some(-0.5); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f34", json: "f34", ron: "f34", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f33", json: "f33", ron: "f33", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }] }, VariantDef { name: "V12", json: "V12", kind: Kind::Named, fields: &[FieldDef { name: "f36", json: "f36", ron: "f36", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEOptionString_36().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f38", json: "type38", ron: "type38", ty: <Vec<u16> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Vec<u16> = vec![1, 2]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }] }, VariantDef { name: "V13", json: "V13", kind: Kind::Named, fields: &[FieldDef { name: "f39", json: "N39", ron: "N39", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f40", json: "f40", ron: "f40", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }, FieldDef { name: "f41", json: "_41", ron: "_41", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Vec<u16> = vec![1, 2]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }] }, VariantDef { name: "V14", json: "V14", kind: Kind::Named, fields: &[FieldDef { name: "f43", json: "f43", ron: "f43", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }, FieldDef { name: "f44", json: "f44", ron: "f44", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }, FieldDef { name: "f42", json: "Ren42", ron: "Ren42", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }] }, VariantDef { name: "V15", json: "V15", kind: Kind::Named, fields: &[FieldDef { name: "f45", json: "f45", ron: "f45", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f47", json: "f47", ron: "f47", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }] }, VariantDef { name: "V16", json: "V16", kind: Kind::Named, fields: &[FieldDef { name: "f48", json: "Ren48", ron: "Ren48", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f50", json: "type50", ron: "type50", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }, FieldDef { name: "f49", json: "f49", ron: "f49", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] }, VariantDef { name: "V17", json: "V17", kind: Kind::Named, fields: &[FieldDef { name: "f53", json: "f53", ron: "f53", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f51", json: "f51", ron: "f51", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f52", json: "f52", ron: "f52", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }] }, VariantDef { name: "V18", json: "V18", kind: Kind::Named, fields: &[FieldDef { name: "f55", json: "f55", ron: "f55", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f54", json: "f54", ron: "f54", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f56", json: "f56", ron: "f56", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }] }, VariantDef { name: "V19", json: "V19", kind: Kind::Named, fields: &[FieldDef { name: "f57", json: "f57", ron: "f57", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionString_57().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f59", json: "f59", ron: "f59", ty: <i16 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }] }, VariantDef { name: "V20", json: "V20", kind: Kind::Named, fields: &[FieldDef { name: "f60", json: "Ren60", ron: "Ren60", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<String> = Some(String::from("x")); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f61", json: "f61", ron: "f61", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f62", json: "f62", ron: "f62", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::V0 { f1: Subject::from_val(&x_[0]), f2: Subject::from_val(&x_[1]), f0: Subject::from_val(&x_[2]) }, 1 => Self::V1 { f4: Subject::from_val(&x_[0]), f3: Subject::from_val(&x_[1]), f5: Subject::from_val(&x_[2]) }, 2 => Self::V2 { f6: Subject::from_val(&x_[0]), f8: Subject::from_val(&x_[1]), f7: Subject::from_val(&x_[2]) }, 3 => Self::V3 { f9: Subject::from_val(&x_[0]), f11: Subject::from_val(&x_[1]), f10: Subject::from_val(&x_[2]) }, 4 => Self::V4 { f13: Subject::from_val(&x_[0]), f12: Subject::from_val(&x_[1]), f14: Subject::from_val(&x_[2]) }, 5 => Self::V5 { f16: Subject::from_val(&x_[0]), f17: Subject::from_val(&x_[1]), f15: Subject::from_val(&x_[2]) }, 6 => Self::V6 { f18: Subject::from_val(&x_[0]), f19: Subject::from_val(&x_[1]) }, 7 => Self::V7 { f22: Subject::from_val(&x_[0]), f21: Subject::from_val(&x_[1]), f23: Subject::from_val(&x_[2]) }, 8 => Self::V8 { f26: Subject::from_val(&x_[0]), f24: Subject::from_val(&x_[1]), f25: Subject::from_val(&x_[2]) }, 9 => Self::V9 { f27: Subject::from_val(&x_[0]), f28: Subject::from_val(&x_[1]), f29: Subject::from_val(&x_[2]) }, 10 => Self::V10 { f30: Subject::from_val(&x_[0]), f31: Subject::from_val(&x_[1]), f32: Subject::from_val(&x_[2]) }, 11 => Self::V11 { f35: Subject::from_val(&x_[0]), f34: Subject::from_val(&x_[1]), f33: Subject::from_val(&x_[2]) }, 12 => Self::V12 { f36: Subject::from_val(&x_[0]), f38: Subject::from_val(&x_[1]) }, 13 => Self::V13 { f39: Subject::from_val(&x_[0]), f40: Subject::from_val(&x_[1]), f41: Subject::from_val(&x_[2]) }, 14 => Self::V14 { f43: Subject::from_val(&x_[0]), f44: Subject::from_val(&x_[1]), f42: Subject::from_val(&x_[2]) }, 15 => Self::V15 { f45: Subject::from_val(&x_[0]), f47: Subject::from_val(&x_[1]) }, 16 => Self::V16 { f48: Subject::from_val(&x_[0]), f50: Subject::from_val(&x_[1]), f49: Subject::from_val(&x_[2]) }, 17 => Self::V17 { f53: Subject::from_val(&x_[0]), f51: Subject::from_val(&x_[1]), f52: Subject::from_val(&x_[2]) }, 18 => Self::V18 { f55: Subject::from_val(&x_[0]), f54: Subject::from_val(&x_[1]), f56: Subject::from_val(&x_[2]) }, 19 => Self::V19 { f57: Subject::from_val(&x_[0]), f59: Subject::from_val(&x_[1]) }, 20 => Self::V20 { f60: Subject::from_val(&x_[0]), f61: Subject::from_val(&x_[1]), f62: Subject::from_val(&x_[2]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::V0 { f1: b0, f2: b1, f0: b2 } => Val::Enum(0, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V1 { f4: b0, f3: b1, f5: b2 } => Val::Enum(1, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V2 { f6: b0, f8: b1, f7: b2 } => Val::Enum(2, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V3 { f9: b0, f11: b1, f10: b2 } => Val::Enum(3, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V4 { f13: b0, f12: b1, f14: b2 } => Val::Enum(4, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V5 { f16: b0, f17: b1, f15: b2 } => Val::Enum(5, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V6 { f18: b0, f19: b1 } => Val::Enum(6, vec![b0.to_val(), b1.to_val()]), Self::V7 { f22: b0, f21: b1, f23: b2 } => Val::Enum(7, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V8 { f26: b0, f24: b1, f25: b2 } => Val::Enum(8, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V9 { f27: b0, f28: b1, f29: b2 } => Val::Enum(9, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V10 { f30: b0, f31: b1, f32: b2 } => Val::Enum(10, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V11 { f35: b0, f34: b1, f33: b2 } => Val::Enum(11, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V12 { f36: b0, f38: b1 } => Val::Enum(12, vec![b0.to_val(), b1.to_val()]), Self::V13 { f39: b0, f40: b1, f41: b2 } => Val::Enum(13, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V14 { f43: b0, f44: b1, f42: b2 } => Val::Enum(14, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V15 { f45: b0, f47: b1 } => Val::Enum(15, vec![b0.to_val(), b1.to_val()]), Self::V16 { f48: b0, f50: b1, f49: b2 } => Val::Enum(16, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V17 { f53: b0, f51: b1, f52: b2 } => Val::Enum(17, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V18 { f55: b0, f54: b1, f56: b2 } => Val::Enum(18, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V19 { f57: b0, f59: b1 } => Val::Enum(19, vec![b0.to_val(), b1.to_val()]), Self::V20 { f60: b0, f61: b1, f62: b2 } => Val::Enum(20, vec![b0.to_val(), b1.to_val(), b2.to_val()]), } }
}
fn mw_MEOptionString_12() -> Option<String> { <Option<String> as Subject>::from_val(&vcore::gen::sample::<Option<String>>(2965)) }
fn mw_MEOptionString_20() -> bool { <bool as Subject>::from_val(&vcore::gen::sample::<bool>(2973)) }
fn mw_MEOptionString_24() -> Option<String> { <Option<String> as Subject>::from_val(&vcore::gen::sample::<Option<String>>(2977)) }
fn mw_MEOptionString_36() -> Option<String> { <Option<String> as Subject>::from_val(&vcore::gen::sample::<Option<String>>(2989)) }
fn mw_MEOptionString_57() -> Option<String> { <Option<String> as Subject>::from_val(&vcore::gen::sample::<Option<String>>(3010)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct MSOptionMSmall {
    #[nserde(skip, default = "MSmall { x: 9, y: Some(true) }")] pub f0: Option<MSmall>,
    #[nserde(skip)] pub f1: Option<MSmall>,
    #[nserde(default_with = "mw_MSOptionMSmall_2", skip)] pub f2: Option<MSmall>,
    #[nserde(rename = "N3", default = "MSmall { x: 9, y: Some(true) }")] pub f3: Option<MSmall>,
    #[nserde(serialize_none_as_null, rename = "some_4")] pub f4: Option<MSmall>,
    #[nserde(default_with = "mw_MSOptionMSmall_5", serialize_none_as_null)] pub f5: Option<MSmall>,
    #[nserde(skip, rename = "Ren6", default = "MSmall { x: 9, y: Some(true) }")] pub f6: Option<MSmall>,
    #[nserde(serialize_none_as_null)] pub f7: Option<MSmall>,
    #[nserde(default = "MSmall { x: 9, y: Some(true) }", serialize_none_as_null)] pub f8: Option<MSmall>,
    #[nserde(default = "MSmall { x: 9, y: Some(true) }")] pub f9: Option<MSmall>,
    #[nserde(serialize_none_as_null)] #[nserde(default)] pub f10: Option<MSmall>,
    #[nserde(serialize_none_as_null)] #[nserde(rename = "_11")] #[nserde(default = "MSmall { x: 9, y: Some(true) }")] pub f11: Option<MSmall>,
    pub f12: Option<MSmall>,
    #[nserde(default_with = "mw_MSOptionMSmall_13")] #[nserde(rename = "ключ_13")] pub f13: Option<MSmall>,
    #[nserde(rename = "type14")] pub f14: Option<MSmall>,
    #[nserde(skip)] #[nserde(rename = "N15")] #[nserde(default)] pub f15: Option<MSmall>,
    #[nserde(default)] pub f16: Option<MSmall>,
    #[nserde(skip)] #[nserde(default)] pub f17: Option<MSmall>,
    #[nserde(default, rename = "Ren18")] pub f18: Option<MSmall>,
    #[nserde(default_with = "mw_MSOptionMSmall_19")] pub f19: Option<MSmall>,
    #[nserde(skip)] #[nserde(rename = "type20")] pub f20: Option<MSmall>,
}
impl Subject for MSOptionMSmall  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MSOptionMSmall", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MSOptionMSmall_2().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "some_4", ron: "some_4", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSOptionMSmall_5().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "_11", ron: "_11", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "ключ_13", ron: "ключ_13", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSOptionMSmall_13().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "N15", ron: "N15", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "f16", ron: "f16", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "f17", ron: "f17", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "f19", ron: "f19", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSOptionMSmall_19().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "type20", ron: "type20", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MSOptionMSmall { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MSOptionMSmall_2() -> Option<MSmall> { <Option<MSmall> as Subject>::from_val(&vcore::gen::sample::<Option<MSmall>>(2986)) }
fn mw_MSOptionMSmall_5() -> Option<MSmall> { <Option<MSmall> as Subject>::from_val(&vcore::gen::sample::<Option<MSmall>>(2989)) }
fn mw_MSOptionMSmall_13() -> Option<MSmall> { <Option<MSmall> as Subject>::from_val(&vcore::gen::sample::<Option<MSmall>>(2997)) }
fn mw_MSOptionMSmall_19() -> Option<MSmall> { <Option<MSmall> as Subject>::from_val(&vcore::gen::sample::<Option<MSmall>>(3003)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default)]
pub struct MDOptionMSmall {
    #[nserde(rename = "Ren0")] pub f0: Option<MSmall>,
    #[nserde(default)] pub f1: Option<MSmall>,
    #[nserde(skip, default_with = "mw_MDOptionMSmall_2")] pub f2: Option<MSmall>,
    pub f3: Option<MSmall>,
    #[nserde(rename = "some_4")] #[nserde(serialize_none_as_null)] #[nserde(default = "MSmall { x: 9, y: Some(true) }")] pub f4: Option<MSmall>,
    #[nserde(default, serialize_none_as_null)] pub f5: Option<MSmall>,
    #[nserde(default)] #[nserde(rename = "Ren6")] pub f6: Option<MSmall>,
    #[nserde(default_with = "mw_MDOptionMSmall_7")] pub f7: Option<MSmall>,
    #[nserde(default = "MSmall { x: 9, y: Some(true) }")] #[nserde(serialize_none_as_null)] pub f8: Option<MSmall>,
    #[nserde(skip, default, rename = "N9")] pub f9: Option<MSmall>,
    #[nserde(default = "MSmall { x: 9, y: Some(true) }", skip)] pub f10: Option<MSmall>,
    #[nserde(default_with = "mw_MDOptionMSmall_11")] #[nserde(serialize_none_as_null)] pub f11: Option<MSmall>,
    #[nserde(rename = "Ren12", serialize_none_as_null)] pub f12: Option<MSmall>,
    #[nserde(rename = "ключ_13")] #[nserde(default_with = "mw_MDOptionMSmall_13")] pub f13: Option<MSmall>,
    #[nserde(skip)] pub f14: Option<MSmall>,
    #[nserde(default)] #[nserde(skip)] pub f15: Option<MSmall>,
    #[nserde(skip)] #[nserde(rename = "some_16")] pub f16: Option<MSmall>,
    #[nserde(default = "MSmall { x: 9, y: Some(true) }")] #[nserde(rename = "_17")] pub f17: Option<MSmall>,
    #[nserde(serialize_none_as_null)] pub f18: Option<MSmall>,
    #[nserde(default = "MSmall { x: 9, y: Some(true) }")] pub f19: Option<MSmall>,
    #[nserde(default = "MSmall { x: 9, y: Some(true) }", skip, rename = "type20")] pub f20: Option<MSmall>,
}
impl Subject for MDOptionMSmall  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MDOptionMSmall", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "Ren0", ron: "Ren0", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MDOptionMSmall_2().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "f3", ron: "f3", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "some_4", ron: "some_4", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDOptionMSmall_7().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "N9", ron: "N9", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDOptionMSmall_11().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "Ren12", ron: "Ren12", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "ключ_13", ron: "ключ_13", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDOptionMSmall_13().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "f15", ron: "f15", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "some_16", ron: "some_16", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "_17", ron: "_17", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "f18", ron: "f18", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "f19", ron: "f19", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "type20", ron: "type20", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MDOptionMSmall { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MDOptionMSmall_2() -> Option<MSmall> { <Option<MSmall> as Subject>::from_val(&vcore::gen::sample::<Option<MSmall>>(3017)) }
fn mw_MDOptionMSmall_7() -> Option<MSmall> { <Option<MSmall> as Subject>::from_val(&vcore::gen::sample::<Option<MSmall>>(3022)) }
fn mw_MDOptionMSmall_11() -> Option<MSmall> { <Option<MSmall> as Subject>::from_val(&vcore::gen::sample::<Option<MSmall>>(3026)) }
fn mw_MDOptionMSmall_13() -> Option<MSmall> { <Option<MSmall> as Subject>::from_val(&vcore::gen::sample::<Option<MSmall>>(3028)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct MNOptionMSmall {
    #[nserde(default, skip)] pub f0: Option<MSmall>,
    #[nserde(skip)] pub f1: Option<MSmall>,
    #[nserde(rename = "type2", default = "MSmall { x: 9, y: Some(true) }", serialize_none_as_null)] pub f2: Option<MSmall>,
    #[nserde(skip)] #[nserde(rename = "N3")] #[nserde(default)] pub f3: Option<MSmall>,
    #[nserde(serialize_none_as_null, default = "MSmall { x: 9, y: Some(true) }")] pub f4: Option<MSmall>,
    #[nserde(rename = "_5", default = "MSmall { x: 9, y: Some(true) }")] pub f5: Option<MSmall>,
    #[nserde(default)] pub f6: Option<MSmall>,
    #[nserde(rename = "ключ_7")] pub f7: Option<MSmall>,
    #[nserde(rename = "type8", skip)] pub f8: Option<MSmall>,
    #[nserde(default_with = "mw_MNOptionMSmall_9")] #[nserde(serialize_none_as_null)] pub f9: Option<MSmall>,
    #[nserde(default_with = "mw_MNOptionMSmall_10")] pub f10: Option<MSmall>,
    #[nserde(skip)] #[nserde(default = "MSmall { x: 9, y: Some(true) }")] pub f11: Option<MSmall>,
    #[nserde(default_with = "mw_MNOptionMSmall_12")] #[nserde(skip)] pub f12: Option<MSmall>,
    #[nserde(serialize_none_as_null)] pub f13: Option<MSmall>,
    #[nserde(default = "MSmall { x: 9, y: Some(true) }")] pub f14: Option<MSmall>,
    #[nserde(default_with = "mw_MNOptionMSmall_15", rename = "N15")] pub f15: Option<MSmall>,
    #[nserde(default)] #[nserde(serialize_none_as_null)] pub f16: Option<MSmall>,
    #[nserde(default, rename = "_17")] pub f17: Option<MSmall>,
    #[nserde(rename = "Ren18", default = "MSmall { x: 9, y: Some(true) }", skip)] pub f18: Option<MSmall>,
    pub f19: Option<MSmall>,
    #[nserde(serialize_none_as_null)] #[nserde(rename = "type20")] pub f20: Option<MSmall>,
}
impl Subject for MNOptionMSmall  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MNOptionMSmall", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "type2", ron: "type2", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "_5", ron: "_5", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "ключ_7", ron: "ключ_7", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "type8", ron: "type8", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MNOptionMSmall_9().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MNOptionMSmall_10().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MNOptionMSmall_12().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "N15", ron: "N15", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MNOptionMSmall_15().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "f16", ron: "f16", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "_17", ron: "_17", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "f19", ron: "f19", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "type20", ron: "type20", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MNOptionMSmall { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MNOptionMSmall_9() -> Option<MSmall> { <Option<MSmall> as Subject>::from_val(&vcore::gen::sample::<Option<MSmall>>(3055)) }
fn mw_MNOptionMSmall_10() -> Option<MSmall> { <Option<MSmall> as Subject>::from_val(&vcore::gen::sample::<Option<MSmall>>(3056)) }
fn mw_MNOptionMSmall_12() -> Option<MSmall> { <Option<MSmall> as Subject>::from_val(&vcore::gen::sample::<Option<MSmall>>(3058)) }
fn mw_MNOptionMSmall_15() -> Option<MSmall> { <Option<MSmall> as Subject>::from_val(&vcore::gen::sample::<Option<MSmall>>(3061)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default, serialize_none_as_null)]
pub struct MBOptionMSmall {
    #[nserde(serialize_none_as_null)] #[nserde(default = "MSmall { x: 9, y: Some(true) }")] pub f0: Option<MSmall>,
    #[nserde(skip)] #[nserde(default)] pub f1: Option<MSmall>,
    #[nserde(skip, rename = "type2")] pub f2: Option<MSmall>,
    #[nserde(rename = "N3", default = "MSmall { x: 9, y: Some(true) }")] pub f3: Option<MSmall>,
    #[nserde(default)] #[nserde(serialize_none_as_null)] pub f4: Option<MSmall>,
    #[nserde(default_with = "mw_MBOptionMSmall_5")] pub f5: Option<MSmall>,
    #[nserde(skip)] pub f6: Option<MSmall>,
    #[nserde(default = "MSmall { x: 9, y: Some(true) }")] pub f7: Option<MSmall>,
    #[nserde(rename = "type8")] pub f8: Option<MSmall>,
    #[nserde(default = "MSmall { x: 9, y: Some(true) }")] #[nserde(rename = "N9")] #[nserde(serialize_none_as_null)] pub f9: Option<MSmall>,
    #[nserde(skip, default = "MSmall { x: 9, y: Some(true) }")] pub f10: Option<MSmall>,
    #[nserde(skip)] #[nserde(rename = "_11")] #[nserde(default = "MSmall { x: 9, y: Some(true) }")] pub f11: Option<MSmall>,
    #[nserde(serialize_none_as_null, default_with = "mw_MBOptionMSmall_12")] pub f12: Option<MSmall>,
    #[nserde(serialize_none_as_null)] pub f13: Option<MSmall>,
    #[nserde(default)] pub f14: Option<MSmall>,
    #[nserde(default_with = "mw_MBOptionMSmall_15")] #[nserde(skip)] pub f15: Option<MSmall>,
    #[nserde(rename = "some_16", default, skip)] pub f16: Option<MSmall>,
    #[nserde(serialize_none_as_null, rename = "_17")] pub f17: Option<MSmall>,
    #[nserde(default_with = "mw_MBOptionMSmall_18")] #[nserde(rename = "Ren18")] pub f18: Option<MSmall>,
    #[nserde(default, rename = "ключ_19")] pub f19: Option<MSmall>,
    pub f20: Option<MSmall>,
}
impl Subject for MBOptionMSmall  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MBOptionMSmall", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "type2", ron: "type2", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MBOptionMSmall_5().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "type8", ron: "type8", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "N9", ron: "N9", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "_11", ron: "_11", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MBOptionMSmall_12().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "f15", ron: "f15", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MBOptionMSmall_15().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "some_16", ron: "some_16", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "_17", ron: "_17", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MBOptionMSmall_18().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "ключ_19", ron: "ключ_19", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "f20", ron: "f20", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MBOptionMSmall { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MBOptionMSmall_5() -> Option<MSmall> { <Option<MSmall> as Subject>::from_val(&vcore::gen::sample::<Option<MSmall>>(3082)) }
fn mw_MBOptionMSmall_12() -> Option<MSmall> { <Option<MSmall> as Subject>::from_val(&vcore::gen::sample::<Option<MSmall>>(3089)) }
fn mw_MBOptionMSmall_15() -> Option<MSmall> { <Option<MSmall> as Subject>::from_val(&vcore::gen::sample::<Option<MSmall>>(3092)) }
fn mw_MBOptionMSmall_18() -> Option<MSmall> { <Option<MSmall> as Subject>::from_val(&vcore::gen::sample::<Option<MSmall>>(3095)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum MEOptionMSmall {
    V0 { #[nserde(default = "mdflt()", skip)] f2: BTreeMap<String, u8>, f1: BTreeMap<String, u8>, f0: Option<MSmall> },
    V1 { f4: f32, #[nserde(skip, default = 1.5)] f5: f32, #[nserde(rename = "N3")] f3: Option<MSmall> },
    V2 { f7: Option<bool> },
    V3 { f10: (u8, String), #[nserde(default = "(1, String::new())")] f11: (u8, String), #[nserde(default = "MSmall { x: 9, y: Some(true) }")] f9: Option<MSmall> },
    V4 { #[nserde(rename = "type14")] #[nserde(skip)] f14: Option<Vec<Option<u8>>> },
    V5 { f16: bool, #[nserde(default)] f17: bool, #[nserde(skip)] f15: Option<MSmall> },
    V6 { f19: Option<Vec<String>>, #[nserde(skip)] #[nserde(rename = "type20")] #[nserde(default = r#"vec![String::from("a\n")]"#)] f20: Option<Vec<String>>, #[nserde(default, rename = "Ren18")] f18: Option<MSmall> },
    V7 { f22: Option<MKind>, #[nserde(default = "MSmall { x: 9, y: Some(true) }", rename = "N21")] f21: Option<MSmall>, #[nserde(default)] #[nserde(skip)] f23: Option<MKind> },
    V8 { f25: Option<f64>, #[nserde(default_with = "mw_MEOptionMSmall_24")] #[nserde(rename = "Ren24")] f24: Option<MSmall>, #[nserde(rename = "type26")] #[nserde(default_with = "mw_MEOptionMSmall_26")] f26: Option<f64> },
    V9 { f28: bool },
    V10 { #[nserde(skip)] #[nserde(default)] f30: Option<MSmall>, #[nserde(default_with = "mw_MEOptionMSmall_32")] f32: bool, f31: bool },
    V11 { f34: Option<MSmall>, f35: Option<MSmall>, #[nserde(default = "MSmall { x: 9, y: Some(true) }", skip)] f33: Option<MSmall> },
    V12 { f37: Option<MKind>, #[nserde(skip, default_with = "mw_MEOptionMSmall_36")] f36: Option<MSmall>, #[nserde(rename = "type38", default = "MKind::C { a: None }")] f38: Option<MKind> },
    V13 { f40: f32, #[nserde(default, skip, rename = "N39")] f39: Option<MSmall>, f41: f32 },
    V14 { #[nserde(default = "MSmall { x: 9, y: Some(true) }", skip, rename = "Ren42")] f42: Option<MSmall>, #[nserde(default_with = "mw_MEOptionMSmall_44")] f44: MSmall, f43: MSmall },
    V15 { #[nserde(default_with = "mw_MEOptionMSmall_47", skip)] f47: String },
    V16 { #[nserde(serialize_none_as_null, rename = "Ren48")] f48: Option<MSmall>, #[nserde(default, skip)] f50: MKind, f49: MKind },
    V17 { #[nserde(skip)] f53: u8, f52: u8, #[nserde(default, serialize_none_as_null)] f51: Option<MSmall> },
    V18 { f55: Option<Vec<String>>, #[nserde(skip, default_with = "mw_MEOptionMSmall_56")] f56: Option<Vec<String>> },
    V19 { f58: MSmall, #[nserde(default_with = "mw_MEOptionMSmall_59", rename = "_59")] f59: MSmall, #[nserde(default_with = "mw_MEOptionMSmall_57")] #[nserde(serialize_none_as_null)] f57: Option<MSmall> },
    V20 { #[nserde(default, rename = "type62")] f62: Option<Vec<Option<u8>>>, f61: Option<Vec<Option<u8>>>, #[nserde(default = "MSmall { x: 9, y: Some(true) }", rename = "Ren60", serialize_none_as_null)] f60: Option<MSmall> },
}
impl Subject for MEOptionMSmall {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "MEOptionMSmall", variants: &[VariantDef { name: "V0", json: "V0", kind: Kind::Named, fields: &[FieldDef { name: "f2", json: "f2", ron: "f2", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: BTreeMap<String, u8> = mdflt(); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }, FieldDef { name: "f1", json: "f1", ron: "f1", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }, FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }] }, VariantDef { name: "V1", json: "V1", kind: Kind::Named, fields: &[FieldDef { name: "f4", json: "f4", ron: "f4", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }, FieldDef { name: "f5", json: "f5", ron: "f5", ty: <f32 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: f32 = 1.5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }, FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }] }, VariantDef { name: "V2", json: "V2", kind: Kind::Named, fields: &[FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) }] }, VariantDef { name: "V3", json: "V3", kind: Kind::Named, fields: &[FieldDef { name: "f10", json: "f10", ron: "f10", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }, FieldDef { name: "f11", json: "f11", ron: "f11", ty: <(u8, String) as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: (u8, String) = (1, String::new()); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }, FieldDef { name: "f9", json: "f9", ron: "f9", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }] }, VariantDef { name: "V4", json: "V4", kind: Kind::Named, fields: &[FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }] }, VariantDef { name: "V5", json: "V5", kind: Kind::Named, fields: &[FieldDef { name: "f16", json: "f16", ron: "f16", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f17", json: "f17", ron: "f17", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f15", json: "f15", ron: "f15", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }] }, VariantDef { name: "V6", json: "V6", kind: Kind::Named, fields: &[FieldDef { name: "f19", json: "f19", ron: "f19", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f20", json: "type20", ron: "type20", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }] }, VariantDef { name: "V7", json: "V7", kind: Kind::Named, fields: &[FieldDef { name: "f22", json: "f22", ron: "f22", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f21", json: "N21", ron: "N21", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }, FieldDef { name: "f23", json: "f23", ron: "f23", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }] }, VariantDef { name: "V8", json: "V8", kind: Kind::Named, fields: &[FieldDef { name: "f25", json: "f25", ron: "f25", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }, FieldDef { name: "f24", json: "Ren24", ron: "Ren24", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionMSmall_24().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }, FieldDef { name: "f26", json: "type26", ron: "type26", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionMSmall_26().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }] }, VariantDef { name: "V9", json: "V9", kind: Kind::Named, fields: &[FieldDef { name: "f28", json: "f28", ron: "f28", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] }, VariantDef { name: "V10", json: "V10", kind: Kind::Named, fields: &[FieldDef { name: "f30", json: "f30", ron: "f30", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }, FieldDef { name: "f32", json: "f32", ron: "f32", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionMSmall_32().to_val()), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f31", json: "f31", ron: "f31", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] }, VariantDef { name: "V11", json: "V11", kind: Kind::Named, fields: &[FieldDef { name: "f34", json: "f34", ron: "f34", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }, FieldDef { name: "f35", json: "f35", ron: "f35", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }, FieldDef { name: "f33", json: "f33", ron: "f33", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }] }, VariantDef { name: "V12", json: "V12", kind: Kind::Named, fields: &[FieldDef { name: "f37", json: "f37", ron: "f37", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f36", json: "f36", ron: "f36", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEOptionMSmall_36().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }, FieldDef { name: "f38", json: "type38", ron: "type38", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }] }, VariantDef { name: "V13", json: "V13", kind: Kind::Named, fields: &[FieldDef { name: "f40", json: "f40", ron: "f40", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }, FieldDef { name: "f39", json: "N39", ron: "N39", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }, FieldDef { name: "f41", json: "f41", ron: "f41", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }] }, VariantDef { name: "V14", json: "V14", kind: Kind::Named, fields: &[FieldDef { name: "f42", json: "Ren42", ron: "Ren42", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }, FieldDef { name: "f44", json: "f44", ron: "f44", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionMSmall_44().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }, FieldDef { name: "f43", json: "f43", ron: "f43", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }] }, VariantDef { name: "V15", json: "V15", kind: Kind::Named, fields: &[FieldDef { name: "f47", json: "f47", ron: "f47", ty: <String as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEOptionMSmall_47().to_val()), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V16", json: "V16", kind: Kind::Named, fields: &[FieldDef { name: "f48", json: "Ren48", ron: "Ren48", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }, FieldDef { name: "f50", json: "f50", ron: "f50", ty: <MKind as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }, FieldDef { name: "f49", json: "f49", ron: "f49", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) }] }, VariantDef { name: "V17", json: "V17", kind: Kind::Named, fields: &[FieldDef { name: "f53", json: "f53", ron: "f53", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f52", json: "f52", ron: "f52", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f51", json: "f51", ron: "f51", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }] }, VariantDef { name: "V18", json: "V18", kind: Kind::Named, fields: &[FieldDef { name: "f55", json: "f55", ron: "f55", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f56", json: "f56", ron: "f56", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEOptionMSmall_56().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }] }, VariantDef { name: "V19", json: "V19", kind: Kind::Named, fields: &[FieldDef { name: "f58", json: "f58", ron: "f58", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }, FieldDef { name: "f59", json: "_59", ron: "_59", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionMSmall_59().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }, FieldDef { name: "f57", json: "f57", ron: "f57", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionMSmall_57().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }] }, VariantDef { name: "V20", json: "V20", kind: Kind::Named, fields: &[FieldDef { name: "f62", json: "type62", ron: "type62", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f61", json: "f61", ron: "f61", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f60", json: "Ren60", ron: "Ren60", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::V0 { f2: Subject::from_val(&x_[0]), f1: Subject::from_val(&x_[1]), f0: Subject::from_val(&x_[2]) }, 1 => Self::V1 { f4: Subject::from_val(&x_[0]), f5: Subject::from_val(&x_[1]), f3: Subject::from_val(&x_[2]) }, 2 => Self::V2 { f7: Subject::from_val(&x_[0]) }, 3 => Self::V3 { f10: Subject::from_val(&x_[0]), f11: Subject::from_val(&x_[1]), f9: Subject::from_val(&x_[2]) }, 4 => Self::V4 { f14: Subject::from_val(&x_[0]) }, 5 => Self::V5 { f16: Subject::from_val(&x_[0]), f17: Subject::from_val(&x_[1]), f15: Subject::from_val(&x_[2]) }, 6 => Self::V6 { f19: Subject::from_val(&x_[0]), f20: Subject::from_val(&x_[1]), f18: Subject::from_val(&x_[2]) }, 7 => Self::V7 { f22: Subject::from_val(&x_[0]), f21: Subject::from_val(&x_[1]), f23: Subject::from_val(&x_[2]) }, 8 => Self::V8 { f25: Subject::from_val(&x_[0]), f24: Subject::from_val(&x_[1]), f26: Subject::from_val(&x_[2]) }, 9 => Self::V9 { f28: Subject::from_val(&x_[0]) }, 10 => Self::V10 { f30: Subject::from_val(&x_[0]), f32: Subject::from_val(&x_[1]), f31: Subject::from_val(&x_[2]) }, 11 => Self::V11 { f34: Subject::from_val(&x_[0]), f35: Subject::from_val(&x_[1]), f33: Subject::from_val(&x_[2]) }, 12 => Self::V12 { f37: Subject::from_val(&x_[0]), f36: Subject::from_val(&x_[1]), f38: Subject::from_val(&x_[2]) }, 13 => Self::V13 { f40: Subject::from_val(&x_[0]), f39: Subject::from_val(&x_[1]), f41: Subject::from_val(&x_[2]) }, 14 => Self::V14 { f42: Subject::from_val(&x_[0]), f44: Subject::from_val(&x_[1]), f43: Subject::from_val(&x_[2]) }, 15 => Self::V15 { f47: Subject::from_val(&x_[0]) }, 16 => Self::V16 { f48: Subject::from_val(&x_[0]), f50: Subject::from_val(&x_[1]), f49: Subject::from_val(&x_[2]) }, 17 => Self::V17 { f53: Subject::from_val(&x_[0]), f52: Subject::from_val(&x_[1]), f51: Subject::from_val(&x_[2]) }, 18 => Self::V18 { f55: Subject::from_val(&x_[0]), f56: Subject::from_val(&x_[1]) }, 19 => Self::V19 { f58: Subject::from_val(&x_[0]), f59: Subject::from_val(&x_[1]), f57: Subject::from_val(&x_[2]) }, 20 => Self::V20 { f62: Subject::from_val(&x_[0]), f61: Subject::from_val(&x_[1]), f60: Subject::from_val(&x_[2]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::V0 { f2: b0, f1: b1, f0: b2 } => Val::Enum(0, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V1 { f4: b0, f5: b1, f3: b2 } => Val::Enum(1, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V2 { f7: b0 } => Val::Enum(2, vec![b0.to_val()]), Self::V3 { f10: b0, f11: b1, f9: b2 } => Val::Enum(3, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V4 { f14: b0 } => Val::Enum(4, vec![b0.to_val()]), Self::V5 { f16: b0, f17: b1, f15: b2 } => Val::Enum(5, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V6 { f19: b0, f20: b1, f18: b2 } => Val::Enum(6, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V7 { f22: b0, f21: b1, f23: b2 } => Val::Enum(7, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V8 { f25: b0, f24: b1, f26: b2 } => Val::Enum(8, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V9 { f28: b0 } => Val::Enum(9, vec![b0.to_val()]), Self::V10 { f30: b0, f32: b1, f31: b2 } => Val::Enum(10, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V11 { f34: b0, f35: b1, f33: b2 } => Val::Enum(11, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V12 { f37: b0, f36: b1, f38: b2 } => Val::Enum(12, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V13 { f40: b0, f39: b1, f41: b2 } => Val::Enum(13, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V14 { f42: b0, f44: b1, f43: b2 } => Val::Enum(14, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V15 { f47: b0 } => Val::Enum(15, vec![b0.to_val()]), Self::V16 { f48: b0, f50: b1, f49: b2 } => Val::Enum(16, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V17 { f53: b0, f52: b1, f51: b2 } => Val::Enum(17, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V18 { f55: b0, f56: b1 } => Val::Enum(18, vec![b0.to_val(), b1.to_val()]), Self::V19 { f58: b0, f59: b1, f57: b2 } => Val::Enum(19, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V20 { f62: b0, f61: b1, f60: b2 } => Val::Enum(20, vec![b0.to_val(), b1.to_val(), b2.to_val()]), } }
}
fn mw_MEOptionMSmall_12() -> Option<MSmall> { <Option<MSmall> as Subject>::from_val(&vcore::gen::sample::<Option<MSmall>>(3120)) }
fn mw_MEOptionMSmall_24() -> Option<MSmall> { <Option<MSmall> as Subject>::from_val(&vcore::gen::sample::<Option<MSmall>>(3132)) }
fn mw_MEOptionMSmall_26() -> Option<f64> { <Option<f64> as Subject>::from_val(&vcore::gen::sample::<Option<f64>>(3134)) }
fn mw_MEOptionMSmall_32() -> bool { <bool as Subject>::from_val(&vcore::gen::sample::<bool>(3140)) }
fn mw_MEOptionMSmall_36() -> Option<MSmall> { <Option<MSmall> as Subject>::from_val(&vcore::gen::sample::<Option<MSmall>>(3144)) }
fn mw_MEOptionMSmall_44() -> MSmall { <MSmall as Subject>::from_val(&vcore::gen::sample::<MSmall>(3152)) }
fn mw_MEOptionMSmall_47() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(3155)) }
fn mw_MEOptionMSmall_56() -> Option<Vec<String>> { <Option<Vec<String>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<String>>>(3164)) }
fn mw_MEOptionMSmall_57() -> Option<MSmall> { <Option<MSmall> as Subject>::from_val(&vcore::gen::sample::<Option<MSmall>>(3165)) }
fn mw_MEOptionMSmall_59() -> MSmall { <MSmall as Subject>::from_val(&vcore::gen::sample::<MSmall>(3167)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct MSOptionMKind {
    #[nserde(serialize_none_as_null, default = "MKind::C { a: None }")] pub f0: Option<MKind>,
    #[nserde(serialize_none_as_null, default_with = "mw_MSOptionMKind_1")] pub f1: Option<MKind>,
    #[nserde(serialize_none_as_null)] pub f2: Option<MKind>,
    #[nserde(rename = "N3")] pub f3: Option<MKind>,
    #[nserde(rename = "some_4")] #[nserde(default = "MKind::C { a: None }")] pub f4: Option<MKind>,
    #[nserde(default = "MKind::C { a: None }", rename = "_5", serialize_none_as_null)] pub f5: Option<MKind>,
    #[nserde(skip)] #[nserde(default_with = "mw_MSOptionMKind_6")] pub f6: Option<MKind>,
    #[nserde(serialize_none_as_null, rename = "ключ_7")] pub f7: Option<MKind>,
    #[nserde(default, serialize_none_as_null)] pub f8: Option<MKind>,
    #[nserde(rename = "N9", default)] pub f9: Option<MKind>,
    #[nserde(default_with = "mw_MSOptionMKind_10")] pub f10: Option<MKind>,
    #[nserde(default = "MKind::C { a: None }")] #[nserde(skip)] pub f11: Option<MKind>,
    #[nserde(default)] pub f12: Option<MKind>,
    #[nserde(skip)] #[nserde(default)] pub f13: Option<MKind>,
    #[nserde(rename = "type14")] #[nserde(skip)] pub f14: Option<MKind>,
    #[nserde(default = "MKind::C { a: None }")] #[nserde(rename = "N15")] #[nserde(skip)] pub f15: Option<MKind>,
    #[nserde(skip)] pub f16: Option<MKind>,
    #[nserde(default = "MKind::C { a: None }")] pub f17: Option<MKind>,
    #[nserde(default, rename = "Ren18", skip)] pub f18: Option<MKind>,
    #[nserde(rename = "ключ_19")] #[nserde(default_with = "mw_MSOptionMKind_19")] pub f19: Option<MKind>,
    pub f20: Option<MKind>,
}
impl Subject for MSOptionMKind  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MSOptionMKind", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSOptionMKind_1().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "some_4", ron: "some_4", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "_5", ron: "_5", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MSOptionMKind_6().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "ключ_7", ron: "ключ_7", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "N9", ron: "N9", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSOptionMKind_10().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "N15", ron: "N15", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "f16", ron: "f16", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "f17", ron: "f17", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "ключ_19", ron: "ключ_19", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSOptionMKind_19().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "f20", ron: "f20", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MSOptionMKind { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MSOptionMKind_1() -> Option<MKind> { <Option<MKind> as Subject>::from_val(&vcore::gen::sample::<Option<MKind>>(3140)) }
fn mw_MSOptionMKind_6() -> Option<MKind> { <Option<MKind> as Subject>::from_val(&vcore::gen::sample::<Option<MKind>>(3145)) }
fn mw_MSOptionMKind_10() -> Option<MKind> { <Option<MKind> as Subject>::from_val(&vcore::gen::sample::<Option<MKind>>(3149)) }
fn mw_MSOptionMKind_19() -> Option<MKind> { <Option<MKind> as Subject>::from_val(&vcore::gen::sample::<Option<MKind>>(3158)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default)]
pub struct MDOptionMKind {
    #[nserde(skip)] #[nserde(default = "MKind::C { a: None }")] pub f0: Option<MKind>,
    #[nserde(skip, rename = "ключ_1", default = "MKind::C { a: None }")] pub f1: Option<MKind>,
    #[nserde(serialize_none_as_null)] #[nserde(default)] pub f2: Option<MKind>,
    #[nserde(default)] pub f3: Option<MKind>,
    #[nserde(rename = "some_4")] pub f4: Option<MKind>,
    #[nserde(serialize_none_as_null)] pub f5: Option<MKind>,
    #[nserde(default_with = "mw_MDOptionMKind_6", rename = "Ren6")] pub f6: Option<MKind>,
    #[nserde(serialize_none_as_null)] #[nserde(rename = "ключ_7")] pub f7: Option<MKind>,
    #[nserde(default_with = "mw_MDOptionMKind_8")] #[nserde(serialize_none_as_null)] pub f8: Option<MKind>,
    #[nserde(skip, rename = "N9")] pub f9: Option<MKind>,
    #[nserde(default_with = "mw_MDOptionMKind_10")] pub f10: Option<MKind>,
    #[nserde(rename = "_11", skip, default)] pub f11: Option<MKind>,
    #[nserde(skip)] #[nserde(default)] pub f12: Option<MKind>,
    #[nserde(skip)] pub f13: Option<MKind>,
    #[nserde(default = "MKind::C { a: None }")] #[nserde(serialize_none_as_null)] pub f14: Option<MKind>,
    #[nserde(default = "MKind::C { a: None }", serialize_none_as_null, rename = "N15")] pub f15: Option<MKind>,
    #[nserde(default = "MKind::C { a: None }")] pub f16: Option<MKind>,
    #[nserde(default = "MKind::C { a: None }")] #[nserde(rename = "_17")] pub f17: Option<MKind>,
    #[nserde(default_with = "mw_MDOptionMKind_18", skip)] pub f18: Option<MKind>,
    pub f19: Option<MKind>,
    #[nserde(default)] #[nserde(rename = "type20")] pub f20: Option<MKind>,
}
impl Subject for MDOptionMKind  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MDOptionMKind", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "f3", ron: "f3", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "some_4", ron: "some_4", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDOptionMKind_6().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "ключ_7", ron: "ключ_7", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDOptionMKind_8().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "N9", ron: "N9", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDOptionMKind_10().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "_11", ron: "_11", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "N15", ron: "N15", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "f16", ron: "f16", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "_17", ron: "_17", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "f18", ron: "f18", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MDOptionMKind_18().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "f19", ron: "f19", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "type20", ron: "type20", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MDOptionMKind { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MDOptionMKind_6() -> Option<MKind> { <Option<MKind> as Subject>::from_val(&vcore::gen::sample::<Option<MKind>>(3176)) }
fn mw_MDOptionMKind_8() -> Option<MKind> { <Option<MKind> as Subject>::from_val(&vcore::gen::sample::<Option<MKind>>(3178)) }
fn mw_MDOptionMKind_10() -> Option<MKind> { <Option<MKind> as Subject>::from_val(&vcore::gen::sample::<Option<MKind>>(3180)) }
fn mw_MDOptionMKind_18() -> Option<MKind> { <Option<MKind> as Subject>::from_val(&vcore::gen::sample::<Option<MKind>>(3188)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct MNOptionMKind {
    #[nserde(skip)] #[nserde(rename = "Ren0")] pub f0: Option<MKind>,
    #[nserde(rename = "ключ_1")] #[nserde(default_with = "mw_MNOptionMKind_1")] pub f1: Option<MKind>,
    #[nserde(skip)] #[nserde(default)] pub f2: Option<MKind>,
    #[nserde(default = "MKind::C { a: None }")] #[nserde(skip)] #[nserde(rename = "N3")] pub f3: Option<MKind>,
    #[nserde(serialize_none_as_null)] #[nserde(rename = "some_4")] pub f4: Option<MKind>,
    #[nserde(serialize_none_as_null)] #[nserde(default)] pub f5: Option<MKind>,
    #[nserde(default)] pub f6: Option<MKind>,
    #[nserde(default = "MKind::C { a: None }")] pub f7: Option<MKind>,
    #[nserde(skip)] pub f8: Option<MKind>,
    #[nserde(rename = "N9")] #[nserde(serialize_none_as_null)] #[nserde(default = "MKind::C { a: None }")] pub f9: Option<MKind>,
    #[nserde(rename = "some_10")] pub f10: Option<MKind>,
    #[nserde(default = "MKind::C { a: None }", serialize_none_as_null)] pub f11: Option<MKind>,
    pub f12: Option<MKind>,
    #[nserde(default)] #[nserde(skip)] #[nserde(rename = "ключ_13")] pub f13: Option<MKind>,
    #[nserde(default_with = "mw_MNOptionMKind_14")] pub f14: Option<MKind>,
    #[nserde(serialize_none_as_null)] pub f15: Option<MKind>,
    #[nserde(serialize_none_as_null, default_with = "mw_MNOptionMKind_16")] pub f16: Option<MKind>,
    #[nserde(default = "MKind::C { a: None }")] #[nserde(skip)] pub f17: Option<MKind>,
    #[nserde(default_with = "mw_MNOptionMKind_18", skip)] pub f18: Option<MKind>,
    #[nserde(default = "MKind::C { a: None }", rename = "ключ_19")] pub f19: Option<MKind>,
    #[nserde(rename = "type20")] #[nserde(default)] pub f20: Option<MKind>,
}
impl Subject for MNOptionMKind  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MNOptionMKind", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "Ren0", ron: "Ren0", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MNOptionMKind_1().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "some_4", ron: "some_4", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "N9", ron: "N9", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "some_10", ron: "some_10", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "ключ_13", ron: "ключ_13", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MNOptionMKind_14().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "f15", ron: "f15", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "f16", ron: "f16", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MNOptionMKind_16().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "f17", ron: "f17", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "f18", ron: "f18", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MNOptionMKind_18().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "ключ_19", ron: "ключ_19", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "type20", ron: "type20", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MNOptionMKind { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MNOptionMKind_1() -> Option<MKind> { <Option<MKind> as Subject>::from_val(&vcore::gen::sample::<Option<MKind>>(3202)) }
fn mw_MNOptionMKind_14() -> Option<MKind> { <Option<MKind> as Subject>::from_val(&vcore::gen::sample::<Option<MKind>>(3215)) }
fn mw_MNOptionMKind_16() -> Option<MKind> { <Option<MKind> as Subject>::from_val(&vcore::gen::sample::<Option<MKind>>(3217)) }
fn mw_MNOptionMKind_18() -> Option<MKind> { <Option<MKind> as Subject>::from_val(&vcore::gen::sample::<Option<MKind>>(3219)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default, serialize_none_as_null)]
pub struct MBOptionMKind {
    #[nserde(default = "MKind::C { a: None }")] #[nserde(serialize_none_as_null)] pub f0: Option<MKind>,
    #[nserde(skip, rename = "ключ_1")] pub f1: Option<MKind>,
    #[nserde(default, rename = "type2")] pub f2: Option<MKind>,
    #[nserde(default, rename = "N3", skip)] pub f3: Option<MKind>,
    pub f4: Option<MKind>,
    #[nserde(serialize_none_as_null, default = "MKind::C { a: None }", rename = "_5")] pub f5: Option<MKind>,
    #[nserde(skip, default = "MKind::C { a: None }")] pub f6: Option<MKind>,
    #[nserde(serialize_none_as_null)] #[nserde(default_with = "mw_MBOptionMKind_7")] pub f7: Option<MKind>,
    #[nserde(default = "MKind::C { a: None }")] pub f8: Option<MKind>,
    #[nserde(rename = "N9", serialize_none_as_null)] pub f9: Option<MKind>,
    #[nserde(skip)] pub f10: Option<MKind>,
    #[nserde(default, skip)] pub f11: Option<MKind>,
    #[nserde(default = "MKind::C { a: None }", rename = "Ren12")] pub f12: Option<MKind>,
    #[nserde(skip, default_with = "mw_MBOptionMKind_13")] pub f13: Option<MKind>,
    #[nserde(rename = "type14")] pub f14: Option<MKind>,
    #[nserde(default_with = "mw_MBOptionMKind_15")] pub f15: Option<MKind>,
    #[nserde(serialize_none_as_null)] #[nserde(default)] pub f16: Option<MKind>,
    #[nserde(skip)] #[nserde(default = "MKind::C { a: None }")] #[nserde(rename = "_17")] pub f17: Option<MKind>,
    #[nserde(default_with = "mw_MBOptionMKind_18", rename = "Ren18")] pub f18: Option<MKind>,
    #[nserde(serialize_none_as_null)] pub f19: Option<MKind>,
    #[nserde(default)] pub f20: Option<MKind>,
}
impl Subject for MBOptionMKind  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MBOptionMKind", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "type2", ron: "type2", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "_5", ron: "_5", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MBOptionMKind_7().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "N9", ron: "N9", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "Ren12", ron: "Ren12", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MBOptionMKind_13().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "f15", ron: "f15", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MBOptionMKind_15().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "f16", ron: "f16", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "_17", ron: "_17", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MBOptionMKind_18().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "f19", ron: "f19", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "f20", ron: "f20", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MBOptionMKind { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MBOptionMKind_7() -> Option<MKind> { <Option<MKind> as Subject>::from_val(&vcore::gen::sample::<Option<MKind>>(3239)) }
fn mw_MBOptionMKind_13() -> Option<MKind> { <Option<MKind> as Subject>::from_val(&vcore::gen::sample::<Option<MKind>>(3245)) }
fn mw_MBOptionMKind_15() -> Option<MKind> { <Option<MKind> as Subject>::from_val(&vcore::gen::sample::<Option<MKind>>(3247)) }
fn mw_MBOptionMKind_18() -> Option<MKind> { <Option<MKind> as Subject>::from_val(&vcore::gen::sample::<Option<MKind>>(3250)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum MEOptionMKind {
    V0 { #[nserde(default = "vec![String::from(\"a\\n\")]", skip)] f2: Vec<String> },
    V1 { #[nserde(skip)] f5: u8, #[nserde(rename = "N3")] f3: Option<MKind> },
    V2 { f7: Option<u8>, #[nserde(rename = "type8", default, skip)] f8: Option<u8> },
    V3 { #[nserde(default = "MKind::C { a: None }")] f9: Option<MKind>, #[nserde(default_with = "mw_MEOptionMKind_11")] f11: Option<f64> },
    V4 { f13: i64, #[nserde(default_with = "mw_MEOptionMKind_12")] f12: Option<MKind>, #[nserde(default)] #[nserde(rename = "type14")] f14: i64 },
    V5 { f16: i16, #[nserde(default = -7)] f17: i16, #[nserde(skip)] f15: Option<MKind> },
    V6 { f19: String, #[nserde(rename = "type20")] #[nserde(default_with = "mw_MEOptionMKind_20")] f20: String },
    V7 { #[nserde(default = "MKind::C { a: None }", rename = "N21")] f21: Option<MKind>, f22: String, #[nserde(default)] f23: String },
    V8 { #[nserde(default)] f26: i64, f25: i64, #[nserde(default_with = "mw_MEOptionMKind_24")] #[nserde(rename = "Ren24")] f24: Option<MKind> },
    V9 { #[nserde(skip, rename = "N27")] f27: Option<MKind>, f28: String },
    V10 { #[nserde(rename = "type32")] f32: bool, #[nserde(skip, default)] f30: Option<MKind>, f31: bool },
    V11 { #[nserde(skip, default = "MKind::C { a: None }")] f33: Option<MKind>, #[nserde(skip)] #[nserde(rename = "_35")] #[nserde(default)] f35: MSmall, f34: MSmall },
    V12 { #[nserde(rename = "type38", skip)] f38: Option<String>, f37: Option<String>, #[nserde(skip)] #[nserde(default_with = "mw_MEOptionMKind_36")] f36: Option<MKind> },
    V13 { f40: MSmall, #[nserde(rename = "N39", skip, default)] f39: Option<MKind>, #[nserde(rename = "_41")] f41: MSmall },
    V14 { #[nserde(skip, default = "MKind::C { a: None }", rename = "Ren42")] f42: Option<MKind>, f44: BTreeMap<String, u8>, f43: BTreeMap<String, u8> },
    V15 { #[nserde(skip, default = "vec![None, Some(1)]", rename = "_47")] f47: Option<Vec<Option<u8>>> },
    V16 { f49: Option<String>, #[nserde(rename = "Ren48")] #[nserde(serialize_none_as_null)] f48: Option<MKind>, #[nserde(default)] f50: Option<String> },
    V17 { f52: Vec<u16>, #[nserde(default_with = "mw_MEOptionMKind_53")] #[nserde(skip)] f53: Vec<u16>, #[nserde(default, serialize_none_as_null)] f51: Option<MKind> },
    V18 { #[nserde(serialize_none_as_null, default = "MKind::C { a: None }")] f54: Option<MKind>, #[nserde(rename = "type56", skip, default = "true")] f56: bool, f55: bool },
    V19 { #[nserde(default_with = "mw_MEOptionMKind_59")] #[nserde(skip)] f59: Option<MSmall>, #[nserde(default_with = "mw_MEOptionMKind_57")] #[nserde(serialize_none_as_null)] f57: Option<MKind>, f58: Option<MSmall> },
    V20 { f61: i16, #[nserde(rename = "Ren60")] #[nserde(serialize_none_as_null)] #[nserde(default = "MKind::C { a: None }")] f60: Option<MKind>, #[nserde(default, skip)] f62: i16 },
}
impl Subject for MEOptionMKind {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "MEOptionMKind", variants: &[VariantDef { name: "V0", json: "V0", kind: Kind::Named, fields: &[FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Vec<String> = vec![String::from("a\n")]; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }] }, VariantDef { name: "V1", json: "V1", kind: Kind::Named, fields: &[FieldDef { name: "f5", json: "f5", ron: "f5", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }] }, VariantDef { name: "V2", json: "V2", kind: Kind::Named, fields: &[FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }, FieldDef { name: "f8", json: "type8", ron: "type8", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] }, VariantDef { name: "V3", json: "V3", kind: Kind::Named, fields: &[FieldDef { name: "f9", json: "f9", ron: "f9", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f11", json: "f11", ron: "f11", ty: <Option<f64> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionMKind_11().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<f64> as Default>::default().to_val()) }] }, VariantDef { name: "V4", json: "V4", kind: Kind::Named, fields: &[FieldDef { name: "f13", json: "f13", ron: "f13", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionMKind_12().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f14", json: "type14", ron: "type14", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }] }, VariantDef { name: "V5", json: "V5", kind: Kind::Named, fields: &[FieldDef { name: "f16", json: "f16", ron: "f16", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }, FieldDef { name: "f17", json: "f17", ron: "f17", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: i16 = -7; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }, FieldDef { name: "f15", json: "f15", ron: "f15", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }] }, VariantDef { name: "V6", json: "V6", kind: Kind::Named, fields: &[FieldDef { name: "f19", json: "f19", ron: "f19", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f20", json: "type20", ron: "type20", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionMKind_20().to_val()), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V7", json: "V7", kind: Kind::Named, fields: &[FieldDef { name: "f21", json: "N21", ron: "N21", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f22", json: "f22", ron: "f22", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f23", json: "f23", ron: "f23", ty: <String as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V8", json: "V8", kind: Kind::Named, fields: &[FieldDef { name: "f26", json: "f26", ron: "f26", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f25", json: "f25", ron: "f25", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) }, FieldDef { name: "f24", json: "Ren24", ron: "Ren24", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionMKind_24().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }] }, VariantDef { name: "V9", json: "V9", kind: Kind::Named, fields: &[FieldDef { name: "f27", json: "N27", ron: "N27", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f28", json: "f28", ron: "f28", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V10", json: "V10", kind: Kind::Named, fields: &[FieldDef { name: "f32", json: "type32", ron: "type32", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f30", json: "f30", ron: "f30", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f31", json: "f31", ron: "f31", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] }, VariantDef { name: "V11", json: "V11", kind: Kind::Named, fields: &[FieldDef { name: "f33", json: "f33", ron: "f33", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f35", json: "_35", ron: "_35", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }, FieldDef { name: "f34", json: "f34", ron: "f34", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }] }, VariantDef { name: "V12", json: "V12", kind: Kind::Named, fields: &[FieldDef { name: "f38", json: "type38", ron: "type38", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f37", json: "f37", ron: "f37", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f36", json: "f36", ron: "f36", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEOptionMKind_36().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }] }, VariantDef { name: "V13", json: "V13", kind: Kind::Named, fields: &[FieldDef { name: "f40", json: "f40", ron: "f40", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }, FieldDef { name: "f39", json: "N39", ron: "N39", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f41", json: "_41", ron: "_41", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }] }, VariantDef { name: "V14", json: "V14", kind: Kind::Named, fields: &[FieldDef { name: "f42", json: "Ren42", ron: "Ren42", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f44", json: "f44", ron: "f44", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }, FieldDef { name: "f43", json: "f43", ron: "f43", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }] }, VariantDef { name: "V15", json: "V15", kind: Kind::Named, fields: &[FieldDef { name: "f47", json: "_47", ron: "_47", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }] }, VariantDef { name: "V16", json: "V16", kind: Kind::Named, fields: &[FieldDef { name: "f49", json: "f49", ron: "f49", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f48", json: "Ren48", ron: "Ren48", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f50", json: "f50", ron: "f50", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }] }, VariantDef { name: "V17", json: "V17", kind: Kind::Named, fields: &[FieldDef { name: "f52", json: "f52", ron: "f52", ty: <Vec<u16> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }, FieldDef { name: "f53", json: "f53", ron: "f53", ty: <Vec<u16> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEOptionMKind_53().to_val()), is_opt: false, null_none: false, type_default: Some(|| <Vec<u16> as Default>::default().to_val()) }, FieldDef { name: "f51", json: "f51", ron: "f51", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }] }, VariantDef { name: "V18", json: "V18", kind: Kind::Named, fields: &[FieldDef { name: "f54", json: "f54", ron: "f54", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f56", json: "type56", ron: "type56", ty: <bool as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: bool = true; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f55", json: "f55", ron: "f55", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }] }, VariantDef { name: "V19", json: "V19", kind: Kind::Named, fields: &[FieldDef { name: "f59", json: "f59", ron: "f59", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEOptionMKind_59().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }, FieldDef { name: "f57", json: "f57", ron: "f57", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionMKind_57().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f58", json: "f58", ron: "f58", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }] }, VariantDef { name: "V20", json: "V20", kind: Kind::Named, fields: &[FieldDef { name: "f61", json: "f61", ron: "f61", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }, FieldDef { name: "f60", json: "Ren60", ron: "Ren60", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MKind> = Some(MKind::C { a: None }); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) }, FieldDef { name: "f62", json: "f62", ron: "f62", ty: <i16 as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::V0 { f2: Subject::from_val(&x_[0]) }, 1 => Self::V1 { f5: Subject::from_val(&x_[0]), f3: Subject::from_val(&x_[1]) }, 2 => Self::V2 { f7: Subject::from_val(&x_[0]), f8: Subject::from_val(&x_[1]) }, 3 => Self::V3 { f9: Subject::from_val(&x_[0]), f11: Subject::from_val(&x_[1]) }, 4 => Self::V4 { f13: Subject::from_val(&x_[0]), f12: Subject::from_val(&x_[1]), f14: Subject::from_val(&x_[2]) }, 5 => Self::V5 { f16: Subject::from_val(&x_[0]), f17: Subject::from_val(&x_[1]), f15: Subject::from_val(&x_[2]) }, 6 => Self::V6 { f19: Subject::from_val(&x_[0]), f20: Subject::from_val(&x_[1]) }, 7 => Self::V7 { f21: Subject::from_val(&x_[0]), f22: Subject::from_val(&x_[1]), f23: Subject::from_val(&x_[2]) }, 8 => Self::V8 { f26: Subject::from_val(&x_[0]), f25: Subject::from_val(&x_[1]), f24: Subject::from_val(&x_[2]) }, 9 => Self::V9 { f27: Subject::from_val(&x_[0]), f28: Subject::from_val(&x_[1]) }, 10 => Self::V10 { f32: Subject::from_val(&x_[0]), f30: Subject::from_val(&x_[1]), f31: Subject::from_val(&x_[2]) }, 11 => Self::V11 { f33: Subject::from_val(&x_[0]), f35: Subject::from_val(&x_[1]), f34: Subject::from_val(&x_[2]) }, 12 => Self::V12 { f38: Subject::from_val(&x_[0]), f37: Subject::from_val(&x_[1]), f36: Subject::from_val(&x_[2]) }, 13 => Self::V13 { f40: Subject::from_val(&x_[0]), f39: Subject::from_val(&x_[1]), f41: Subject::from_val(&x_[2]) }, 14 => Self::V14 { f42: Subject::from_val(&x_[0]), f44: Subject::from_val(&x_[1]), f43: Subject::from_val(&x_[2]) }, 15 => Self::V15 { f47: Subject::from_val(&x_[0]) }, 16 => Self::V16 { f49: Subject::from_val(&x_[0]), f48: Subject::from_val(&x_[1]), f50: Subject::from_val(&x_[2]) }, 17 => Self::V17 { f52: Subject::from_val(&x_[0]), f53: Subject::from_val(&x_[1]), f51: Subject::from_val(&x_[2]) }, 18 => Self::V18 { f54: Subject::from_val(&x_[0]), f56: Subject::from_val(&x_[1]), f55: Subject::from_val(&x_[2]) }, 19 => Self::V19 { f59: Subject::from_val(&x_[0]), f57: Subject::from_val(&x_[1]), f58: Subject::from_val(&x_[2]) }, 20 => Self::V20 { f61: Subject::from_val(&x_[0]), f60: Subject::from_val(&x_[1]), f62: Subject::from_val(&x_[2]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::V0 { f2: b0 } => Val::Enum(0, vec![b0.to_val()]), Self::V1 { f5: b0, f3: b1 } => Val::Enum(1, vec![b0.to_val(), b1.to_val()]), Self::V2 { f7: b0, f8: b1 } => Val::Enum(2, vec![b0.to_val(), b1.to_val()]), Self::V3 { f9: b0, f11: b1 } => Val::Enum(3, vec![b0.to_val(), b1.to_val()]), Self::V4 { f13: b0, f12: b1, f14: b2 } => Val::Enum(4, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V5 { f16: b0, f17: b1, f15: b2 } => Val::Enum(5, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V6 { f19: b0, f20: b1 } => Val::Enum(6, vec![b0.to_val(), b1.to_val()]), Self::V7 { f21: b0, f22: b1, f23: b2 } => Val::Enum(7, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V8 { f26: b0, f25: b1, f24: b2 } => Val::Enum(8, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V9 { f27: b0, f28: b1 } => Val::Enum(9, vec![b0.to_val(), b1.to_val()]), Self::V10 { f32: b0, f30: b1, f31: b2 } => Val::Enum(10, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V11 { f33: b0, f35: b1, f34: b2 } => Val::Enum(11, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V12 { f38: b0, f37: b1, f36: b2 } => Val::Enum(12, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V13 { f40: b0, f39: b1, f41: b2 } => Val::Enum(13, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V14 { f42: b0, f44: b1, f43: b2 } => Val::Enum(14, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V15 { f47: b0 } => Val::Enum(15, vec![b0.to_val()]), Self::V16 { f49: b0, f48: b1, f50: b2 } => Val::Enum(16, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V17 { f52: b0, f53: b1, f51: b2 } => Val::Enum(17, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V18 { f54: b0, f56: b1, f55: b2 } => Val::Enum(18, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V19 { f59: b0, f57: b1, f58: b2 } => Val::Enum(19, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V20 { f61: b0, f60: b1, f62: b2 } => Val::Enum(20, vec![b0.to_val(), b1.to_val(), b2.to_val()]), } }
}
fn mw_MEOptionMKind_11() -> Option<f64> { <Option<f64> as Subject>::from_val(&vcore::gen::sample::<Option<f64>>(3274)) }
fn mw_MEOptionMKind_12() -> Option<MKind> { <Option<MKind> as Subject>::from_val(&vcore::gen::sample::<Option<MKind>>(3275)) }
fn mw_MEOptionMKind_20() -> String { <String as Subject>::from_val(&vcore::gen::sample::<String>(3283)) }
fn mw_MEOptionMKind_24() -> Option<MKind> { <Option<MKind> as Subject>::from_val(&vcore::gen::sample::<Option<MKind>>(3287)) }
fn mw_MEOptionMKind_36() -> Option<MKind> { <Option<MKind> as Subject>::from_val(&vcore::gen::sample::<Option<MKind>>(3299)) }
fn mw_MEOptionMKind_53() -> Vec<u16> { <Vec<u16> as Subject>::from_val(&vcore::gen::sample::<Vec<u16>>(3316)) }
fn mw_MEOptionMKind_57() -> Option<MKind> { <Option<MKind> as Subject>::from_val(&vcore::gen::sample::<Option<MKind>>(3320)) }
fn mw_MEOptionMKind_59() -> Option<MSmall> { <Option<MSmall> as Subject>::from_val(&vcore::gen::sample::<Option<MSmall>>(3322)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct MSOptionVecOptionu8 {
    #[nserde(serialize_none_as_null)] #[nserde(default_with = "mw_MSOptionVecOptionu8_0")] pub f0: Option<Vec<Option<u8>>>,
    #[nserde(default = "vec![None, Some(1)]")] #[nserde(skip)] #[nserde(rename = "ключ_1")] pub f1: Option<Vec<Option<u8>>>,
    #[nserde(default)] pub f2: Option<Vec<Option<u8>>>,
    #[nserde(default = "vec![None, Some(1)]")] #[nserde(serialize_none_as_null)] #[nserde(rename = "N3")] pub f3: Option<Vec<Option<u8>>>,
    #[nserde(serialize_none_as_null)] pub f4: Option<Vec<Option<u8>>>,
    #[nserde(default_with = "mw_MSOptionVecOptionu8_5")] pub f5: Option<Vec<Option<u8>>>,
    #[nserde(serialize_none_as_null)] #[nserde(rename = "Ren6")] pub f6: Option<Vec<Option<u8>>>,
    #[nserde(default = "vec![None, Some(1)]")] pub f7: Option<Vec<Option<u8>>>,
    pub f8: Option<Vec<Option<u8>>>,
    #[nserde(skip)] #[nserde(default_with = "mw_MSOptionVecOptionu8_9")] pub f9: Option<Vec<Option<u8>>>,
    #[nserde(skip)] #[nserde(default)] pub f10: Option<Vec<Option<u8>>>,
    #[nserde(default = "vec![None, Some(1)]", rename = "_11")] pub f11: Option<Vec<Option<u8>>>,
    #[nserde(serialize_none_as_null)] #[nserde(default)] pub f12: Option<Vec<Option<u8>>>,
    #[nserde(rename = "ключ_13")] pub f13: Option<Vec<Option<u8>>>,
    #[nserde(skip)] #[nserde(default)] #[nserde(rename = "type14")] pub f14: Option<Vec<Option<u8>>>,
    #[nserde(skip)] pub f15: Option<Vec<Option<u8>>>,
    #[nserde(rename = "some_16", default_with = "mw_MSOptionVecOptionu8_16")] pub f16: Option<Vec<Option<u8>>>,
    #[nserde(rename = "_17")] #[nserde(skip)] pub f17: Option<Vec<Option<u8>>>,
    #[nserde(skip)] #[nserde(default = "vec![None, Some(1)]")] pub f18: Option<Vec<Option<u8>>>,
    #[nserde(rename = "ключ_19")] #[nserde(default)] pub f19: Option<Vec<Option<u8>>>,
    #[nserde(serialize_none_as_null, default = "vec![None, Some(1)]")] pub f20: Option<Vec<Option<u8>>>,
}
impl Subject for MSOptionVecOptionu8  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MSOptionVecOptionu8", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSOptionVecOptionu8_0().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSOptionVecOptionu8_5().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MSOptionVecOptionu8_9().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "_11", ron: "_11", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "ключ_13", ron: "ключ_13", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "f15", ron: "f15", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "some_16", ron: "some_16", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MSOptionVecOptionu8_16().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "_17", ron: "_17", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "f18", ron: "f18", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "ключ_19", ron: "ключ_19", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "f20", ron: "f20", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MSOptionVecOptionu8 { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MSOptionVecOptionu8_0() -> Option<Vec<Option<u8>>> { <Option<Vec<Option<u8>>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<Option<u8>>>>(3294)) }
fn mw_MSOptionVecOptionu8_5() -> Option<Vec<Option<u8>>> { <Option<Vec<Option<u8>>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<Option<u8>>>>(3299)) }
fn mw_MSOptionVecOptionu8_9() -> Option<Vec<Option<u8>>> { <Option<Vec<Option<u8>>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<Option<u8>>>>(3303)) }
fn mw_MSOptionVecOptionu8_16() -> Option<Vec<Option<u8>>> { <Option<Vec<Option<u8>>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<Option<u8>>>>(3310)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default)]
pub struct MDOptionVecOptionu8 {
    #[nserde(rename = "Ren0")] #[nserde(default = "vec![None, Some(1)]")] pub f0: Option<Vec<Option<u8>>>,
    #[nserde(serialize_none_as_null)] #[nserde(default_with = "mw_MDOptionVecOptionu8_1")] pub f1: Option<Vec<Option<u8>>>,
    #[nserde(rename = "type2", default, skip)] pub f2: Option<Vec<Option<u8>>>,
    #[nserde(rename = "N3")] pub f3: Option<Vec<Option<u8>>>,
    #[nserde(serialize_none_as_null, default)] pub f4: Option<Vec<Option<u8>>>,
    #[nserde(skip)] pub f5: Option<Vec<Option<u8>>>,
    #[nserde(default_with = "mw_MDOptionVecOptionu8_6", skip)] pub f6: Option<Vec<Option<u8>>>,
    #[nserde(skip)] #[nserde(default = "vec![None, Some(1)]")] pub f7: Option<Vec<Option<u8>>>,
    #[nserde(default)] #[nserde(rename = "type8")] pub f8: Option<Vec<Option<u8>>>,
    #[nserde(rename = "N9")] #[nserde(default = "vec![None, Some(1)]")] #[nserde(skip)] pub f9: Option<Vec<Option<u8>>>,
    pub f10: Option<Vec<Option<u8>>>,
    #[nserde(rename = "_11", serialize_none_as_null, default = "vec![None, Some(1)]")] pub f11: Option<Vec<Option<u8>>>,
    #[nserde(rename = "Ren12", skip)] pub f12: Option<Vec<Option<u8>>>,
    #[nserde(default = "vec![None, Some(1)]")] pub f13: Option<Vec<Option<u8>>>,
    #[nserde(default)] pub f14: Option<Vec<Option<u8>>>,
    #[nserde(serialize_none_as_null)] pub f15: Option<Vec<Option<u8>>>,
    #[nserde(serialize_none_as_null)] #[nserde(rename = "some_16")] pub f16: Option<Vec<Option<u8>>>,
    #[nserde(serialize_none_as_null)] #[nserde(default = "vec![None, Some(1)]")] pub f17: Option<Vec<Option<u8>>>,
    #[nserde(default)] #[nserde(skip)] pub f18: Option<Vec<Option<u8>>>,
    #[nserde(default_with = "mw_MDOptionVecOptionu8_19")] pub f19: Option<Vec<Option<u8>>>,
    #[nserde(rename = "type20", default_with = "mw_MDOptionVecOptionu8_20")] pub f20: Option<Vec<Option<u8>>>,
}
impl Subject for MDOptionVecOptionu8  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MDOptionVecOptionu8", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "Ren0", ron: "Ren0", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDOptionVecOptionu8_1().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "type2", ron: "type2", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MDOptionVecOptionu8_6().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "type8", ron: "type8", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "N9", ron: "N9", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "_11", ron: "_11", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "Ren12", ron: "Ren12", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "f15", ron: "f15", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "some_16", ron: "some_16", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "f17", ron: "f17", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "f18", ron: "f18", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "f19", ron: "f19", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDOptionVecOptionu8_19().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "type20", ron: "type20", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MDOptionVecOptionu8_20().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MDOptionVecOptionu8 { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MDOptionVecOptionu8_1() -> Option<Vec<Option<u8>>> { <Option<Vec<Option<u8>>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<Option<u8>>>>(3326)) }
fn mw_MDOptionVecOptionu8_6() -> Option<Vec<Option<u8>>> { <Option<Vec<Option<u8>>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<Option<u8>>>>(3331)) }
fn mw_MDOptionVecOptionu8_19() -> Option<Vec<Option<u8>>> { <Option<Vec<Option<u8>>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<Option<u8>>>>(3344)) }
fn mw_MDOptionVecOptionu8_20() -> Option<Vec<Option<u8>>> { <Option<Vec<Option<u8>>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<Option<u8>>>>(3345)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct MNOptionVecOptionu8 {
    #[nserde(skip)] #[nserde(default)] #[nserde(rename = "Ren0")] pub f0: Option<Vec<Option<u8>>>,
    #[nserde(rename = "ключ_1")] pub f1: Option<Vec<Option<u8>>>,
    #[nserde(serialize_none_as_null)] #[nserde(default)] pub f2: Option<Vec<Option<u8>>>,
    #[nserde(default = "vec![None, Some(1)]")] #[nserde(rename = "N3")] #[nserde(skip)] pub f3: Option<Vec<Option<u8>>>,
    #[nserde(default)] pub f4: Option<Vec<Option<u8>>>,
    #[nserde(skip)] #[nserde(default_with = "mw_MNOptionVecOptionu8_5")] pub f5: Option<Vec<Option<u8>>>,
    #[nserde(default = "vec![None, Some(1)]", serialize_none_as_null)] pub f6: Option<Vec<Option<u8>>>,
    #[nserde(default = "vec![None, Some(1)]", skip)] pub f7: Option<Vec<Option<u8>>>,
    #[nserde(serialize_none_as_null)] #[nserde(default_with = "mw_MNOptionVecOptionu8_8")] pub f8: Option<Vec<Option<u8>>>,
    #[nserde(serialize_none_as_null, rename = "N9")] pub f9: Option<Vec<Option<u8>>>,
    #[nserde(default)] #[nserde(skip)] pub f10: Option<Vec<Option<u8>>>,
    #[nserde(serialize_none_as_null)] pub f11: Option<Vec<Option<u8>>>,
    #[nserde(rename = "Ren12", default = "vec![None, Some(1)]")] pub f12: Option<Vec<Option<u8>>>,
    #[nserde(default = "vec![None, Some(1)]")] pub f13: Option<Vec<Option<u8>>>,
    pub f14: Option<Vec<Option<u8>>>,
    #[nserde(default = "vec![None, Some(1)]")] #[nserde(rename = "N15")] #[nserde(serialize_none_as_null)] pub f15: Option<Vec<Option<u8>>>,
    #[nserde(default_with = "mw_MNOptionVecOptionu8_16")] pub f16: Option<Vec<Option<u8>>>,
    #[nserde(rename = "_17", default_with = "mw_MNOptionVecOptionu8_17")] pub f17: Option<Vec<Option<u8>>>,
    #[nserde(rename = "Ren18", skip)] pub f18: Option<Vec<Option<u8>>>,
    #[nserde(rename = "ключ_19", default)] pub f19: Option<Vec<Option<u8>>>,
    #[nserde(skip)] pub f20: Option<Vec<Option<u8>>>,
}
impl Subject for MNOptionVecOptionu8  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MNOptionVecOptionu8", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "Ren0", ron: "Ren0", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "f5", ron: "f5", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MNOptionVecOptionu8_5().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MNOptionVecOptionu8_8().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "N9", ron: "N9", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "Ren12", ron: "Ren12", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "N15", ron: "N15", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "f16", ron: "f16", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MNOptionVecOptionu8_16().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "_17", ron: "_17", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MNOptionVecOptionu8_17().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "ключ_19", ron: "ключ_19", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "f20", ron: "f20", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MNOptionVecOptionu8 { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MNOptionVecOptionu8_5() -> Option<Vec<Option<u8>>> { <Option<Vec<Option<u8>>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<Option<u8>>>>(3361)) }
fn mw_MNOptionVecOptionu8_8() -> Option<Vec<Option<u8>>> { <Option<Vec<Option<u8>>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<Option<u8>>>>(3364)) }
fn mw_MNOptionVecOptionu8_16() -> Option<Vec<Option<u8>>> { <Option<Vec<Option<u8>>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<Option<u8>>>>(3372)) }
fn mw_MNOptionVecOptionu8_17() -> Option<Vec<Option<u8>>> { <Option<Vec<Option<u8>>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<Option<u8>>>>(3373)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default, serialize_none_as_null)]
pub struct MBOptionVecOptionu8 {
    #[nserde(rename = "Ren0")] #[nserde(serialize_none_as_null)] pub f0: Option<Vec<Option<u8>>>,
    #[nserde(default)] #[nserde(rename = "ключ_1")] pub f1: Option<Vec<Option<u8>>>,
    #[nserde(serialize_none_as_null, default)] pub f2: Option<Vec<Option<u8>>>,
    #[nserde(skip)] #[nserde(rename = "N3")] pub f3: Option<Vec<Option<u8>>>,
    #[nserde(skip, default = "vec![None, Some(1)]")] pub f4: Option<Vec<Option<u8>>>,
    #[nserde(default)] #[nserde(rename = "_5")] #[nserde(skip)] pub f5: Option<Vec<Option<u8>>>,
    #[nserde(skip)] pub f6: Option<Vec<Option<u8>>>,
    #[nserde(rename = "ключ_7")] #[nserde(default = "vec![None, Some(1)]")] pub f7: Option<Vec<Option<u8>>>,
    #[nserde(serialize_none_as_null)] #[nserde(default = "vec![None, Some(1)]")] pub f8: Option<Vec<Option<u8>>>,
    #[nserde(default_with = "mw_MBOptionVecOptionu8_9", skip)] pub f9: Option<Vec<Option<u8>>>,
    #[nserde(rename = "some_10")] #[nserde(default_with = "mw_MBOptionVecOptionu8_10")] pub f10: Option<Vec<Option<u8>>>,
    pub f11: Option<Vec<Option<u8>>>,
    #[nserde(serialize_none_as_null)] pub f12: Option<Vec<Option<u8>>>,
    #[nserde(default_with = "mw_MBOptionVecOptionu8_13")] pub f13: Option<Vec<Option<u8>>>,
    #[nserde(serialize_none_as_null, default = "vec![None, Some(1)]", rename = "type14")] pub f14: Option<Vec<Option<u8>>>,
    #[nserde(default)] pub f15: Option<Vec<Option<u8>>>,
    #[nserde(default = "vec![None, Some(1)]")] #[nserde(skip)] #[nserde(rename = "some_16")] pub f16: Option<Vec<Option<u8>>>,
    #[nserde(default = "vec![None, Some(1)]")] pub f17: Option<Vec<Option<u8>>>,
    #[nserde(rename = "Ren18")] pub f18: Option<Vec<Option<u8>>>,
    #[nserde(default_with = "mw_MBOptionVecOptionu8_19")] #[nserde(serialize_none_as_null)] pub f19: Option<Vec<Option<u8>>>,
    #[nserde(skip, default)] pub f20: Option<Vec<Option<u8>>>,
}
impl Subject for MBOptionVecOptionu8  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MBOptionVecOptionu8", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "Ren0", ron: "Ren0", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f5", json: "_5", ron: "_5", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "ключ_7", ron: "ключ_7", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f9", json: "f9", ron: "f9", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MBOptionVecOptionu8_9().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "some_10", ron: "some_10", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MBOptionVecOptionu8_10().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f11", json: "f11", ron: "f11", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MBOptionVecOptionu8_13().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f15", json: "f15", ron: "f15", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "some_16", ron: "some_16", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f17", json: "f17", ron: "f17", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "f19", ron: "f19", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MBOptionVecOptionu8_19().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "f20", ron: "f20", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MBOptionVecOptionu8 { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]), f4: Subject::from_val(&x[4]), f5: Subject::from_val(&x[5]), f6: Subject::from_val(&x[6]), f7: Subject::from_val(&x[7]), f8: Subject::from_val(&x[8]), f9: Subject::from_val(&x[9]), f10: Subject::from_val(&x[10]), f11: Subject::from_val(&x[11]), f12: Subject::from_val(&x[12]), f13: Subject::from_val(&x[13]), f14: Subject::from_val(&x[14]), f15: Subject::from_val(&x[15]), f16: Subject::from_val(&x[16]), f17: Subject::from_val(&x[17]), f18: Subject::from_val(&x[18]), f19: Subject::from_val(&x[19]), f20: Subject::from_val(&x[20]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f9.to_val(), self.f10.to_val(), self.f11.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f15.to_val(), self.f16.to_val(), self.f17.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MBOptionVecOptionu8_9() -> Option<Vec<Option<u8>>> { <Option<Vec<Option<u8>>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<Option<u8>>>>(3396)) }
fn mw_MBOptionVecOptionu8_10() -> Option<Vec<Option<u8>>> { <Option<Vec<Option<u8>>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<Option<u8>>>>(3397)) }
fn mw_MBOptionVecOptionu8_13() -> Option<Vec<Option<u8>>> { <Option<Vec<Option<u8>>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<Option<u8>>>>(3400)) }
fn mw_MBOptionVecOptionu8_19() -> Option<Vec<Option<u8>>> { <Option<Vec<Option<u8>>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<Option<u8>>>>(3406)) }

#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum MEOptionVecOptionu8 {
    V0 { f1: Vec<String>, #[nserde(default_with = "mw_MEOptionVecOptionu8_2")] #[nserde(skip)] f2: Vec<String>, f0: Option<Vec<Option<u8>>> },
    V1 { #[nserde(rename = "N3")] f3: Option<Vec<Option<u8>>>, f4: BTreeMap<String, u8>, #[nserde(rename = "_5")] f5: BTreeMap<String, u8> },
    V2 { #[nserde(default)] f6: Option<Vec<Option<u8>>>, f7: u8, #[nserde(default_with = "mw_MEOptionVecOptionu8_8")] f8: u8 },
    V3 { #[nserde(default = "vec![None, Some(1)]")] f9: Option<Vec<Option<u8>>>, f10: String, #[nserde(rename = "_11")] #[nserde(default)] #[nserde(skip)] f11: String },
    V4 { f13: MSmall, f14: MSmall, #[nserde(default_with = "mw_MEOptionVecOptionu8_12")] f12: Option<Vec<Option<u8>>> },
    V5 { #[nserde(default_with = "mw_MEOptionVecOptionu8_17", skip)] f17: u8, f16: u8 },
    V6 { #[nserde(rename = "type20")] #[nserde(skip)] f20: String, #[nserde(rename = "Ren18")] #[nserde(default)] f18: Option<Vec<Option<u8>>>, f19: String },
    V7 { f22: u8, #[nserde(rename = "N21", default = "vec![None, Some(1)]")] f21: Option<Vec<Option<u8>>>, #[nserde(skip, default_with = "mw_MEOptionVecOptionu8_23")] f23: u8 },
    V8 { #[nserde(default_with = "mw_MEOptionVecOptionu8_24", rename = "Ren24")] f24: Option<Vec<Option<u8>>>, f25: i16 },
    V9 { f28: String },
    V10 { #[nserde(skip, default)] f30: Option<Vec<Option<u8>>>, f31: Option<Vec<String>>, #[nserde(skip, default = r#"vec![String::from("a\n")]"#)] f32: Option<Vec<String>> },
    V11 { f34: BTreeMap<String, u8> },
    V12 { f37: u8, #[nserde(skip)] #[nserde(rename = "type38")] f38: u8, #[nserde(skip)] #[nserde(default_with = "mw_MEOptionVecOptionu8_36")] f36: Option<Vec<Option<u8>>> },
    V13 { #[nserde(rename = "N39", skip, default)] f39: Option<Vec<Option<u8>>>, f40: Option<Vec<Option<u8>>> },
    V14 { f43: Vec<String>, #[nserde(rename = "Ren42", default = "vec![None, Some(1)]", skip)] f42: Option<Vec<Option<u8>>>, #[nserde(rename = "type44")] f44: Vec<String> },
    V15 { f46: MSmall, #[nserde(serialize_none_as_null)] f45: Option<Vec<Option<u8>>> },
    V16 { f49: Option<String>, #[nserde(rename = "Ren48", serialize_none_as_null)] f48: Option<Vec<Option<u8>>>, #[nserde(skip, default)] f50: Option<String> },
    V17 { #[nserde(default)] f53: Option<MSmall>, #[nserde(default)] #[nserde(serialize_none_as_null)] f51: Option<Vec<Option<u8>>> },
    V18 { #[nserde(default = "vec![None, Some(1)]")] #[nserde(serialize_none_as_null)] f54: Option<Vec<Option<u8>>>, f55: Option<u8>, #[nserde(skip)] #[nserde(default_with = "mw_MEOptionVecOptionu8_56")] f56: Option<u8> },
    V19 { #[nserde(default_with = "mw_MEOptionVecOptionu8_59")] f59: f32, #[nserde(default_with = "mw_MEOptionVecOptionu8_57")] #[nserde(serialize_none_as_null)] f57: Option<Vec<Option<u8>>>, f58: f32 },
    V20 { f61: Option<u8>, #[nserde(default = "vec![None, Some(1)]", serialize_none_as_null, rename = "Ren60")] f60: Option<Vec<Option<u8>>>, #[nserde(default)] #[nserde(rename = "type62")] f62: Option<u8> },
}
impl Subject for MEOptionVecOptionu8 {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "MEOptionVecOptionu8", variants: &[VariantDef { name: "V0", json: "V0", kind: Kind::Named, fields: &[FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Vec<String> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEOptionVecOptionu8_2().to_val()), is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }] }, VariantDef { name: "V1", json: "V1", kind: Kind::Named, fields: &[FieldDef { name: "f3", json: "N3", ron: "N3", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f4", json: "f4", ron: "f4", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }, FieldDef { name: "f5", json: "_5", ron: "_5", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }] }, VariantDef { name: "V2", json: "V2", kind: Kind::Named, fields: &[FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f7", json: "f7", ron: "f7", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f8", json: "f8", ron: "f8", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionVecOptionu8_8().to_val()), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }] }, VariantDef { name: "V3", json: "V3", kind: Kind::Named, fields: &[FieldDef { name: "f9", json: "f9", ron: "f9", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f10", json: "f10", ron: "f10", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f11", json: "_11", ron: "_11", ty: <String as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V4", json: "V4", kind: Kind::Named, fields: &[FieldDef { name: "f13", json: "f13", ron: "f13", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }, FieldDef { name: "f14", json: "f14", ron: "f14", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }, FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionVecOptionu8_12().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }] }, VariantDef { name: "V5", json: "V5", kind: Kind::Named, fields: &[FieldDef { name: "f17", json: "f17", ron: "f17", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEOptionVecOptionu8_17().to_val()), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f16", json: "f16", ron: "f16", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }] }, VariantDef { name: "V6", json: "V6", kind: Kind::Named, fields: &[FieldDef { name: "f20", json: "type20", ron: "type20", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f19", json: "f19", ron: "f19", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V7", json: "V7", kind: Kind::Named, fields: &[FieldDef { name: "f22", json: "f22", ron: "f22", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f21", json: "N21", ron: "N21", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f23", json: "f23", ron: "f23", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEOptionVecOptionu8_23().to_val()), is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }] }, VariantDef { name: "V8", json: "V8", kind: Kind::Named, fields: &[FieldDef { name: "f24", json: "Ren24", ron: "Ren24", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionVecOptionu8_24().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f25", json: "f25", ron: "f25", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }] }, VariantDef { name: "V9", json: "V9", kind: Kind::Named, fields: &[FieldDef { name: "f28", json: "f28", ron: "f28", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }] }, VariantDef { name: "V10", json: "V10", kind: Kind::Named, fields: &[FieldDef { name: "f30", json: "f30", ron: "f30", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f31", json: "f31", ron: "f31", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }, FieldDef { name: "f32", json: "f32", ron: "f32", ty: <Option<Vec<String>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) }] }, VariantDef { name: "V11", json: "V11", kind: Kind::Named, fields: &[FieldDef { name: "f34", json: "f34", ron: "f34", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }] }, VariantDef { name: "V12", json: "V12", kind: Kind::Named, fields: &[FieldDef { name: "f37", json: "f37", ron: "f37", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f38", json: "type38", ron: "type38", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f36", json: "f36", ron: "f36", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEOptionVecOptionu8_36().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }] }, VariantDef { name: "V13", json: "V13", kind: Kind::Named, fields: &[FieldDef { name: "f39", json: "N39", ron: "N39", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f40", json: "f40", ron: "f40", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }] }, VariantDef { name: "V14", json: "V14", kind: Kind::Named, fields: &[FieldDef { name: "f43", json: "f43", ron: "f43", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }, FieldDef { name: "f42", json: "Ren42", ron: "Ren42", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f44", json: "type44", ron: "type44", ty: <Vec<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <Vec<String> as Default>::default().to_val()) }] }, VariantDef { name: "V15", json: "V15", kind: Kind::Named, fields: &[FieldDef { name: "f46", json: "f46", ron: "f46", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) }, FieldDef { name: "f45", json: "f45", ron: "f45", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }] }, VariantDef { name: "V16", json: "V16", kind: Kind::Named, fields: &[FieldDef { name: "f49", json: "f49", ron: "f49", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }, FieldDef { name: "f48", json: "Ren48", ron: "Ren48", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f50", json: "f50", ron: "f50", ty: <Option<String> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) }] }, VariantDef { name: "V17", json: "V17", kind: Kind::Named, fields: &[FieldDef { name: "f53", json: "f53", ron: "f53", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }, FieldDef { name: "f51", json: "f51", ron: "f51", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }] }, VariantDef { name: "V18", json: "V18", kind: Kind::Named, fields: &[FieldDef { name: "f54", json: "f54", ron: "f54", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f55", json: "f55", ron: "f55", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }, FieldDef { name: "f56", json: "f56", ron: "f56", ty: <Option<u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MEOptionVecOptionu8_56().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] }, VariantDef { name: "V19", json: "V19", kind: Kind::Named, fields: &[FieldDef { name: "f59", json: "f59", ron: "f59", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionVecOptionu8_59().to_val()), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }, FieldDef { name: "f57", json: "f57", ron: "f57", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MEOptionVecOptionu8_57().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f58", json: "f58", ron: "f58", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) }] }, VariantDef { name: "V20", json: "V20", kind: Kind::Named, fields: &[FieldDef { name: "f61", json: "f61", ron: "f61", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }, FieldDef { name: "f60", json: "Ren60", ron: "Ren60", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) }, FieldDef { name: "f62", json: "type62", ron: "type62", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::V0 { f1: Subject::from_val(&x_[0]), f2: Subject::from_val(&x_[1]), f0: Subject::from_val(&x_[2]) }, 1 => Self::V1 { f3: Subject::from_val(&x_[0]), f4: Subject::from_val(&x_[1]), f5: Subject::from_val(&x_[2]) }, 2 => Self::V2 { f6: Subject::from_val(&x_[0]), f7: Subject::from_val(&x_[1]), f8: Subject::from_val(&x_[2]) }, 3 => Self::V3 { f9: Subject::from_val(&x_[0]), f10: Subject::from_val(&x_[1]), f11: Subject::from_val(&x_[2]) }, 4 => Self::V4 { f13: Subject::from_val(&x_[0]), f14: Subject::from_val(&x_[1]), f12: Subject::from_val(&x_[2]) }, 5 => Self::V5 { f17: Subject::from_val(&x_[0]), f16: Subject::from_val(&x_[1]) }, 6 => Self::V6 { f20: Subject::from_val(&x_[0]), f18: Subject::from_val(&x_[1]), f19: Subject::from_val(&x_[2]) }, 7 => Self::V7 { f22: Subject::from_val(&x_[0]), f21: Subject::from_val(&x_[1]), f23: Subject::from_val(&x_[2]) }, 8 => Self::V8 { f24: Subject::from_val(&x_[0]), f25: Subject::from_val(&x_[1]) }, 9 => Self::V9 { f28: Subject::from_val(&x_[0]) }, 10 => Self::V10 { f30: Subject::from_val(&x_[0]), f31: Subject::from_val(&x_[1]), f32: Subject::from_val(&x_[2]) }, 11 => Self::V11 { f34: Subject::from_val(&x_[0]) }, 12 => Self::V12 { f37: Subject::from_val(&x_[0]), f38: Subject::from_val(&x_[1]), f36: Subject::from_val(&x_[2]) }, 13 => Self::V13 { f39: Subject::from_val(&x_[0]), f40: Subject::from_val(&x_[1]) }, 14 => Self::V14 { f43: Subject::from_val(&x_[0]), f42: Subject::from_val(&x_[1]), f44: Subject::from_val(&x_[2]) }, 15 => Self::V15 { f46: Subject::from_val(&x_[0]), f45: Subject::from_val(&x_[1]) }, 16 => Self::V16 { f49: Subject::from_val(&x_[0]), f48: Subject::from_val(&x_[1]), f50: Subject::from_val(&x_[2]) }, 17 => Self::V17 { f53: Subject::from_val(&x_[0]), f51: Subject::from_val(&x_[1]) }, 18 => Self::V18 { f54: Subject::from_val(&x_[0]), f55: Subject::from_val(&x_[1]), f56: Subject::from_val(&x_[2]) }, 19 => Self::V19 { f59: Subject::from_val(&x_[0]), f57: Subject::from_val(&x_[1]), f58: Subject::from_val(&x_[2]) }, 20 => Self::V20 { f61: Subject::from_val(&x_[0]), f60: Subject::from_val(&x_[1]), f62: Subject::from_val(&x_[2]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::V0 { f1: b0, f2: b1, f0: b2 } => Val::Enum(0, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V1 { f3: b0, f4: b1, f5: b2 } => Val::Enum(1, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V2 { f6: b0, f7: b1, f8: b2 } => Val::Enum(2, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V3 { f9: b0, f10: b1, f11: b2 } => Val::Enum(3, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V4 { f13: b0, f14: b1, f12: b2 } => Val::Enum(4, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V5 { f17: b0, f16: b1 } => Val::Enum(5, vec![b0.to_val(), b1.to_val()]), Self::V6 { f20: b0, f18: b1, f19: b2 } => Val::Enum(6, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V7 { f22: b0, f21: b1, f23: b2 } => Val::Enum(7, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V8 { f24: b0, f25: b1 } => Val::Enum(8, vec![b0.to_val(), b1.to_val()]), Self::V9 { f28: b0 } => Val::Enum(9, vec![b0.to_val()]), Self::V10 { f30: b0, f31: b1, f32: b2 } => Val::Enum(10, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V11 { f34: b0 } => Val::Enum(11, vec![b0.to_val()]), Self::V12 { f37: b0, f38: b1, f36: b2 } => Val::Enum(12, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V13 { f39: b0, f40: b1 } => Val::Enum(13, vec![b0.to_val(), b1.to_val()]), Self::V14 { f43: b0, f42: b1, f44: b2 } => Val::Enum(14, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V15 { f46: b0, f45: b1 } => Val::Enum(15, vec![b0.to_val(), b1.to_val()]), Self::V16 { f49: b0, f48: b1, f50: b2 } => Val::Enum(16, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V17 { f53: b0, f51: b1 } => Val::Enum(17, vec![b0.to_val(), b1.to_val()]), Self::V18 { f54: b0, f55: b1, f56: b2 } => Val::Enum(18, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V19 { f59: b0, f57: b1, f58: b2 } => Val::Enum(19, vec![b0.to_val(), b1.to_val(), b2.to_val()]), Self::V20 { f61: b0, f60: b1, f62: b2 } => Val::Enum(20, vec![b0.to_val(), b1.to_val(), b2.to_val()]), } }
}
fn mw_MEOptionVecOptionu8_2() -> Vec<String> { <Vec<String> as Subject>::from_val(&vcore::gen::sample::<Vec<String>>(3420)) }
fn mw_MEOptionVecOptionu8_8() -> u8 { <u8 as Subject>::from_val(&vcore::gen::sample::<u8>(3426)) }
fn mw_MEOptionVecOptionu8_12() -> Option<Vec<Option<u8>>> { <Option<Vec<Option<u8>>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<Option<u8>>>>(3430)) }
fn mw_MEOptionVecOptionu8_17() -> u8 { <u8 as Subject>::from_val(&vcore::gen::sample::<u8>(3435)) }
fn mw_MEOptionVecOptionu8_23() -> u8 { <u8 as Subject>::from_val(&vcore::gen::sample::<u8>(3441)) }
fn mw_MEOptionVecOptionu8_24() -> Option<Vec<Option<u8>>> { <Option<Vec<Option<u8>>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<Option<u8>>>>(3442)) }
fn mw_MEOptionVecOptionu8_26() -> i16 { <i16 as Subject>::from_val(&vcore::gen::sample::<i16>(3444)) }
fn mw_MEOptionVecOptionu8_36() -> Option<Vec<Option<u8>>> { <Option<Vec<Option<u8>>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<Option<u8>>>>(3454)) }
fn mw_MEOptionVecOptionu8_56() -> Option<u8> { <Option<u8> as Subject>::from_val(&vcore::gen::sample::<Option<u8>>(3474)) }
fn mw_MEOptionVecOptionu8_57() -> Option<Vec<Option<u8>>> { <Option<Vec<Option<u8>>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<Option<u8>>>>(3475)) }
fn mw_MEOptionVecOptionu8_59() -> f32 { <f32 as Subject>::from_val(&vcore::gen::sample::<f32>(3477)) }

#[derive(SerJson, DeJson)]
pub struct MPXMW {
    #[nserde(proxy = "MPx")] #[nserde(skip, default_with = "mw_MPXMW_0")] pub f0: MW,
    #[nserde(default, skip)] pub f1: String,
    #[nserde(rename = "type2")] #[nserde(default_with = "mw_MPXMW_2")] #[nserde(proxy = "MPx")] pub f2: MW,
    #[nserde(default)] #[nserde(proxy = "MPx")] pub f4: MW,
    #[nserde(proxy = "MPx")] #[nserde(rename = "Ren6")] pub f6: MW,
    #[nserde(default = "MSmall { x: 3, y: None }")] pub f7: MSmall,
    #[nserde(proxy = "MPx")] #[nserde(rename = "type8")] #[nserde(default)] pub f8: MW,
    #[nserde(proxy = "MPx")] #[nserde(rename = "some_10", skip)] pub f10: MW,
    #[nserde(proxy = "MPx")] #[nserde(default_with = "mw_MPXMW_12")] pub f12: MW,
    #[nserde(default_with = "mw_MPXMW_13")] pub f13: Option<String>,
    #[nserde(proxy = "MPx")] #[nserde(default = "mw(3)")] pub f14: MW,
    #[nserde(proxy = "MPx")] #[nserde(skip)] #[nserde(default)] pub f16: MW,
    #[nserde(proxy = "MPx")] pub f18: MW,
    #[nserde(skip, default = "MSmall { x: 9, y: Some(true) }")] pub f19: Option<MSmall>,
    #[nserde(proxy = "MPx")] #[nserde(skip)] pub f20: MW,
}
impl Subject for MPXMW  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MPXMW", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <MW as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MPXMW_0().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <String as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "type2", ron: "type2", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MPXMW_2().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <MSmall as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: MSmall = MSmall { x: 3, y: None }; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "type8", ron: "type8", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "some_10", ron: "some_10", ty: <MW as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MPXMW_12().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <Option<String> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MPXMW_13().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<String> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: MW = mw(3); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "f16", ron: "f16", ty: <MW as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "f18", ron: "f18", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "f19", ron: "f19", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "f20", ron: "f20", ty: <MW as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MPXMW { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f4: Subject::from_val(&x[3]), f6: Subject::from_val(&x[4]), f7: Subject::from_val(&x[5]), f8: Subject::from_val(&x[6]), f10: Subject::from_val(&x[7]), f12: Subject::from_val(&x[8]), f13: Subject::from_val(&x[9]), f14: Subject::from_val(&x[10]), f16: Subject::from_val(&x[11]), f18: Subject::from_val(&x[12]), f19: Subject::from_val(&x[13]), f20: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f4.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f10.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f16.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MPXMW_0() -> MW { <MW as Subject>::from_val(&vcore::gen::sample::<MW>(3449)) }
fn mw_MPXMW_2() -> MW { <MW as Subject>::from_val(&vcore::gen::sample::<MW>(3451)) }
fn mw_MPXMW_12() -> MW { <MW as Subject>::from_val(&vcore::gen::sample::<MW>(3461)) }
fn mw_MPXMW_13() -> Option<String> { <Option<String> as Subject>::from_val(&vcore::gen::sample::<Option<String>>(3462)) }

#[derive(SerJson, DeJson)]
#[nserde(default)]
pub struct MPDMW {
    #[nserde(proxy = "MPx")] #[nserde(default)] pub f0: MW,
    #[nserde(default = r#"vec![String::from("a\n")]"#, rename = "ключ_1")] pub f1: Option<Vec<String>>,
    #[nserde(rename = "type2")] #[nserde(proxy = "MPx")] pub f2: MW,
    #[nserde(proxy = "MPx")] #[nserde(default_with = "mw_MPDMW_4", skip)] pub f4: MW,
    #[nserde(proxy = "MPx")] #[nserde(skip)] pub f6: MW,
    #[nserde(default)] pub f7: Option<bool>,
    #[nserde(default)] #[nserde(skip)] #[nserde(proxy = "MPx")] pub f8: MW,
    #[nserde(proxy = "MPx")] #[nserde(rename = "some_10")] #[nserde(default_with = "mw_MPDMW_10")] pub f10: MW,
    #[nserde(default = "mw(3)")] #[nserde(proxy = "MPx")] pub f12: MW,
    #[nserde(default)] pub f13: f32,
    #[nserde(proxy = "MPx")] pub f14: MW,
    #[nserde(rename = "some_16")] #[nserde(skip)] #[nserde(proxy = "MPx")] pub f16: MW,
    #[nserde(default)] #[nserde(rename = "Ren18")] #[nserde(proxy = "MPx")] pub f18: MW,
    #[nserde(rename = "ключ_19", default = "MSmall { x: 9, y: Some(true) }")] pub f19: Option<MSmall>,
    #[nserde(default_with = "mw_MPDMW_20")] #[nserde(proxy = "MPx")] pub f20: MW,
}
impl Subject for MPDMW  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MPDMW", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <Option<Vec<String>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<Vec<String>> = Some(vec![String::from("a\n")]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<String>> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "type2", ron: "type2", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <MW as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MPDMW_4().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <MW as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <MW as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "some_10", ron: "some_10", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MPDMW_10().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: MW = mw(3); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <f32 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "some_16", ron: "some_16", ty: <MW as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "ключ_19", ron: "ключ_19", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "f20", ron: "f20", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MPDMW_20().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MPDMW { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f4: Subject::from_val(&x[3]), f6: Subject::from_val(&x[4]), f7: Subject::from_val(&x[5]), f8: Subject::from_val(&x[6]), f10: Subject::from_val(&x[7]), f12: Subject::from_val(&x[8]), f13: Subject::from_val(&x[9]), f14: Subject::from_val(&x[10]), f16: Subject::from_val(&x[11]), f18: Subject::from_val(&x[12]), f19: Subject::from_val(&x[13]), f20: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f4.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f10.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f16.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MPDMW_4() -> MW { <MW as Subject>::from_val(&vcore::gen::sample::<MW>(3484)) }
fn mw_MPDMW_10() -> MW { <MW as Subject>::from_val(&vcore::gen::sample::<MW>(3490)) }
fn mw_MPDMW_20() -> MW { <MW as Subject>::from_val(&vcore::gen::sample::<MW>(3500)) }

#[derive(SerJson, DeJson)]
#[nserde(serialize_none_as_null)]
pub struct MPNMW {
    #[nserde(skip)] #[nserde(default)] #[nserde(proxy = "MPx")] pub f0: MW,
    #[nserde(skip)] pub f1: MSmall,
    #[nserde(default_with = "mw_MPNMW_2", skip)] #[nserde(proxy = "MPx")] pub f2: MW,
    #[nserde(proxy = "MPx")] #[nserde(default)] #[nserde(rename = "some_4")] pub f4: MW,
    #[nserde(proxy = "MPx")] pub f6: MW,
    #[nserde(skip)] pub f7: BTreeMap<String, u8>,
    #[nserde(skip)] #[nserde(proxy = "MPx")] pub f8: MW,
    #[nserde(rename = "some_10")] #[nserde(proxy = "MPx")] pub f10: MW,
    #[nserde(default_with = "mw_MPNMW_12")] #[nserde(proxy = "MPx")] pub f12: MW,
    #[nserde(default_with = "mw_MPNMW_13", rename = "ключ_13")] pub f13: i16,
    #[nserde(proxy = "MPx")] #[nserde(default)] pub f14: MW,
    #[nserde(rename = "some_16", default_with = "mw_MPNMW_16")] #[nserde(proxy = "MPx")] pub f16: MW,
    #[nserde(default = "mw(3)")] #[nserde(proxy = "MPx")] pub f18: MW,
    #[nserde(skip)] #[nserde(rename = "ключ_19")] pub f19: Option<MSmall>,
    #[nserde(skip, rename = "type20")] #[nserde(proxy = "MPx")] pub f20: MW,
}
impl Subject for MPNMW  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MPNMW", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <MW as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <MSmall as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MSmall as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <MW as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MPNMW_2().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "some_4", ron: "some_4", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <MW as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "some_10", ron: "some_10", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MPNMW_12().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "ключ_13", ron: "ключ_13", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MPNMW_13().to_val()), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "some_16", ron: "some_16", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MPNMW_16().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "f18", ron: "f18", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: MW = mw(3); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "ключ_19", ron: "ключ_19", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "type20", ron: "type20", ty: <MW as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MPNMW { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f4: Subject::from_val(&x[3]), f6: Subject::from_val(&x[4]), f7: Subject::from_val(&x[5]), f8: Subject::from_val(&x[6]), f10: Subject::from_val(&x[7]), f12: Subject::from_val(&x[8]), f13: Subject::from_val(&x[9]), f14: Subject::from_val(&x[10]), f16: Subject::from_val(&x[11]), f18: Subject::from_val(&x[12]), f19: Subject::from_val(&x[13]), f20: Subject::from_val(&x[14]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f4.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f10.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f16.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val()]) }
}
fn mw_MPNMW_2() -> MW { <MW as Subject>::from_val(&vcore::gen::sample::<MW>(3513)) }
fn mw_MPNMW_12() -> MW { <MW as Subject>::from_val(&vcore::gen::sample::<MW>(3523)) }
fn mw_MPNMW_13() -> i16 { <i16 as Subject>::from_val(&vcore::gen::sample::<i16>(3524)) }
fn mw_MPNMW_16() -> MW { <MW as Subject>::from_val(&vcore::gen::sample::<MW>(3527)) }

#[derive(SerJson, DeJson)]
pub enum MPEMW {
    V0 { #[nserde(skip)] #[nserde(proxy = "MPx")] f0: MW, #[nserde(skip)] f1: String, #[nserde(proxy = "MPx")] #[nserde(default = "mw(3)")] f2: MW, #[nserde(rename = "some_4", default)] #[nserde(proxy = "MPx")] f4: MW },
    V1 { #[nserde(default)] #[nserde(skip)] #[nserde(proxy = "MPx")] f6: MW, #[nserde(rename = "ключ_7")] #[nserde(skip)] f7: (u8, String), #[nserde(proxy = "MPx")] #[nserde(rename = "type8")] #[nserde(skip)] f8: MW, #[nserde(proxy = "MPx")] f10: MW, #[nserde(rename = "Ren12")] #[nserde(default_with = "mw_MPEMW_12")] #[nserde(proxy = "MPx")] f12: MW },
    V2 { #[nserde(default = -7)] #[nserde(skip)] f13: i16 },
    V3 { #[nserde(proxy = "MPx")] #[nserde(rename = "type14")] f14: MW, #[nserde(proxy = "MPx")] #[nserde(default_with = "mw_MPEMW_16")] f16: MW, #[nserde(proxy = "MPx")] #[nserde(default)] f18: MW, #[nserde(default)] f19: String, #[nserde(proxy = "MPx")] #[nserde(default_with = "mw_MPEMW_20")] #[nserde(skip)] f20: MW },
}
impl Subject for MPEMW {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "MPEMW", variants: &[VariantDef { name: "V0", json: "V0", kind: Kind::Named, fields: &[FieldDef { name: "f0", json: "f0", ron: "f0", ty: <MW as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) }, FieldDef { name: "f1", json: "f1", ron: "f1", ty: <String as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f2", json: "f2", ron: "f2", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: MW = mw(3); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) }, FieldDef { name: "f4", json: "some_4", ron: "some_4", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) }] }, VariantDef { name: "V1", json: "V1", kind: Kind::Named, fields: &[FieldDef { name: "f6", json: "f6", ron: "f6", ty: <MW as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) }, FieldDef { name: "f7", json: "ключ_7", ron: "ключ_7", ty: <(u8, String) as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <(u8, String) as Default>::default().to_val()) }, FieldDef { name: "f8", json: "type8", ron: "type8", ty: <MW as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) }, FieldDef { name: "f10", json: "f10", ron: "f10", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) }, FieldDef { name: "f12", json: "Ren12", ron: "Ren12", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MPEMW_12().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) }] }, VariantDef { name: "V2", json: "V2", kind: Kind::Named, fields: &[FieldDef { name: "f13", json: "f13", ron: "f13", ty: <i16 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: i16 = -7; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) }] }, VariantDef { name: "V3", json: "V3", kind: Kind::Named, fields: &[FieldDef { name: "f14", json: "type14", ron: "type14", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) }, FieldDef { name: "f16", json: "f16", ron: "f16", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MPEMW_16().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) }, FieldDef { name: "f18", json: "f18", ron: "f18", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) }, FieldDef { name: "f19", json: "f19", ron: "f19", ty: <String as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f20", json: "f20", ron: "f20", ty: <MW as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MPEMW_20().to_val()), is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::V0 { f0: Subject::from_val(&x_[0]), f1: Subject::from_val(&x_[1]), f2: Subject::from_val(&x_[2]), f4: Subject::from_val(&x_[3]) }, 1 => Self::V1 { f6: Subject::from_val(&x_[0]), f7: Subject::from_val(&x_[1]), f8: Subject::from_val(&x_[2]), f10: Subject::from_val(&x_[3]), f12: Subject::from_val(&x_[4]) }, 2 => Self::V2 { f13: Subject::from_val(&x_[0]) }, 3 => Self::V3 { f14: Subject::from_val(&x_[0]), f16: Subject::from_val(&x_[1]), f18: Subject::from_val(&x_[2]), f19: Subject::from_val(&x_[3]), f20: Subject::from_val(&x_[4]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::V0 { f0: b0, f1: b1, f2: b2, f4: b3 } => Val::Enum(0, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val()]), Self::V1 { f6: b0, f7: b1, f8: b2, f10: b3, f12: b4 } => Val::Enum(1, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val(), b4.to_val()]), Self::V2 { f13: b0 } => Val::Enum(2, vec![b0.to_val()]), Self::V3 { f14: b0, f16: b1, f18: b2, f19: b3, f20: b4 } => Val::Enum(3, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val(), b4.to_val()]), } }
}
fn mw_MPEMW_12() -> MW { <MW as Subject>::from_val(&vcore::gen::sample::<MW>(3554)) }
fn mw_MPEMW_16() -> MW { <MW as Subject>::from_val(&vcore::gen::sample::<MW>(3558)) }
fn mw_MPEMW_20() -> MW { <MW as Subject>::from_val(&vcore::gen::sample::<MW>(3562)) }

#[derive(SerJson, DeJson)]
pub struct MPXOptionMW {
    #[nserde(proxy = "MPx")] #[nserde(default_with = "mw_MPXOptionMW_0")] #[nserde(skip)] pub f0: Option<MW>,
    #[nserde(default)] pub f1: Option<MKind>,
    #[nserde(default_with = "mw_MPXOptionMW_2")] #[nserde(proxy = "MPx")] pub f2: Option<MW>,
    #[nserde(proxy = "MPx")] pub f4: Option<MW>,
    #[nserde(proxy = "MPx")] #[nserde(skip)] pub f6: Option<MW>,
    #[nserde(default)] pub f7: i64,
    #[nserde(proxy = "MPx")] #[nserde(default = "mw(4)")] pub f8: Option<MW>,
    #[nserde(proxy = "MPx")] #[nserde(default_with = "mw_MPXOptionMW_10")] #[nserde(rename = "some_10")] pub f10: Option<MW>,
    #[nserde(proxy = "MPx")] #[nserde(default)] #[nserde(rename = "Ren12")] pub f12: Option<MW>,
    #[nserde(default = -7)] pub f13: i16,
    #[nserde(proxy = "MPx")] #[nserde(rename = "type14", serialize_none_as_null)] pub f14: Option<MW>,
    #[nserde(default)] #[nserde(skip)] #[nserde(proxy = "MPx")] pub f16: Option<MW>,
    #[nserde(default_with = "mw_MPXOptionMW_18")] #[nserde(serialize_none_as_null)] #[nserde(proxy = "MPx")] pub f18: Option<MW>,
    #[nserde(default = "MKind::B(4)")] pub f19: MKind,
    #[nserde(default)] #[nserde(proxy = "MPx")] pub f20: Option<MW>,
    #[nserde(proxy = "MPx")] #[nserde(serialize_none_as_null, default = "mw(4)")] pub f22: Option<MW>,
    #[nserde(default = "mw(4)", serialize_none_as_null, rename = "Ren24")] #[nserde(proxy = "MPx")] pub f24: Option<MW>,
    #[nserde(skip)] #[nserde(default = "vec![None, Some(1)]")] pub f25: Option<Vec<Option<u8>>>,
    #[nserde(proxy = "MPx")] #[nserde(serialize_none_as_null)] pub f26: Option<MW>,
    #[nserde(rename = "some_28")] #[nserde(proxy = "MPx")] pub f28: Option<MW>,
    #[nserde(proxy = "MPx")] #[nserde(skip)] #[nserde(rename = "Ren30")] pub f30: Option<MW>,
    #[nserde(default, skip)] pub f31: Option<MKind>,
    #[nserde(proxy = "MPx")] #[nserde(serialize_none_as_null, default)] pub f32: Option<MW>,
}
impl Subject for MPXOptionMW  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MPXOptionMW", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <Option<MW> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MPXOptionMW_0().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <Option<MKind> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MPXOptionMW_2().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Option<MW> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <i64 as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MW> = Some(mw(4)); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "some_10", ron: "some_10", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MPXOptionMW_10().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "Ren12", ron: "Ren12", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <i16 as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: i16 = -7; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <i16 as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "f16", ron: "f16", ty: <Option<MW> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "f18", ron: "f18", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MPXOptionMW_18().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "f19", ron: "f19", ty: <MKind as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: MKind = MKind::B(4); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "f20", ron: "f20", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f22", json: "f22", ron: "f22", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MW> = Some(mw(4)); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f24", json: "Ren24", ron: "Ren24", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MW> = Some(mw(4)); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f25", json: "f25", ron: "f25", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<Vec<Option<u8>>> = Some(vec![None, Some(1)]); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f26", json: "f26", ron: "f26", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f28", json: "some_28", ron: "some_28", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f30", json: "Ren30", ron: "Ren30", ty: <Option<MW> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f31", json: "f31", ron: "f31", ty: <Option<MKind> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MKind> as Default>::default().to_val()) },
        FieldDef { name: "f32", json: "f32", ron: "f32", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MPXOptionMW { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f4: Subject::from_val(&x[3]), f6: Subject::from_val(&x[4]), f7: Subject::from_val(&x[5]), f8: Subject::from_val(&x[6]), f10: Subject::from_val(&x[7]), f12: Subject::from_val(&x[8]), f13: Subject::from_val(&x[9]), f14: Subject::from_val(&x[10]), f16: Subject::from_val(&x[11]), f18: Subject::from_val(&x[12]), f19: Subject::from_val(&x[13]), f20: Subject::from_val(&x[14]), f22: Subject::from_val(&x[15]), f24: Subject::from_val(&x[16]), f25: Subject::from_val(&x[17]), f26: Subject::from_val(&x[18]), f28: Subject::from_val(&x[19]), f30: Subject::from_val(&x[20]), f31: Subject::from_val(&x[21]), f32: Subject::from_val(&x[22]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f4.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f10.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f16.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val(), self.f22.to_val(), self.f24.to_val(), self.f25.to_val(), self.f26.to_val(), self.f28.to_val(), self.f30.to_val(), self.f31.to_val(), self.f32.to_val()]) }
}
fn mw_MPXOptionMW_0() -> Option<MW> { <Option<MW> as Subject>::from_val(&vcore::gen::sample::<Option<MW>>(3573)) }
fn mw_MPXOptionMW_2() -> Option<MW> { <Option<MW> as Subject>::from_val(&vcore::gen::sample::<Option<MW>>(3575)) }
fn mw_MPXOptionMW_10() -> Option<MW> { <Option<MW> as Subject>::from_val(&vcore::gen::sample::<Option<MW>>(3583)) }
fn mw_MPXOptionMW_18() -> Option<MW> { <Option<MW> as Subject>::from_val(&vcore::gen::sample::<Option<MW>>(3591)) }

#[derive(SerJson, DeJson)]
#[nserde(default)]
pub struct MPDOptionMW {
    #[nserde(rename = "Ren0")] #[nserde(default_with = "mw_MPDOptionMW_0")] #[nserde(proxy = "MPx")] pub f0: Option<MW>,
    #[nserde(default = "MSmall { x: 9, y: Some(true) }")] #[nserde(rename = "ключ_1")] #[nserde(skip)] pub f1: Option<MSmall>,
    #[nserde(default_with = "mw_MPDOptionMW_2")] #[nserde(proxy = "MPx")] pub f2: Option<MW>,
    #[nserde(proxy = "MPx")] #[nserde(serialize_none_as_null, default = "mw(4)", rename = "some_4")] pub f4: Option<MW>,
    #[nserde(proxy = "MPx")] #[nserde(rename = "Ren6")] pub f6: Option<MW>,
    #[nserde(default = "MSmall { x: 9, y: Some(true) }")] #[nserde(skip)] pub f7: Option<MSmall>,
    #[nserde(default = "mw(4)")] #[nserde(proxy = "MPx")] pub f8: Option<MW>,
    #[nserde(rename = "some_10")] #[nserde(serialize_none_as_null)] #[nserde(proxy = "MPx")] pub f10: Option<MW>,
    #[nserde(proxy = "MPx")] #[nserde(default, serialize_none_as_null)] pub f12: Option<MW>,
    #[nserde(default = "mdflt()")] #[nserde(skip)] #[nserde(rename = "ключ_13")] pub f13: BTreeMap<String, u8>,
    #[nserde(skip, default)] #[nserde(proxy = "MPx")] pub f14: Option<MW>,
    #[nserde(proxy = "MPx")] #[nserde(rename = "some_16", skip)] pub f16: Option<MW>,
    #[nserde(proxy = "MPx")] pub f18: Option<MW>,
    #[nserde(skip)] #[nserde(default_with = "mw_MPDOptionMW_19")] pub f19: Option<MSmall>,
    #[nserde(default_with = "mw_MPDOptionMW_20", skip)] #[nserde(proxy = "MPx")] pub f20: Option<MW>,
    #[nserde(default = "mw(4)", serialize_none_as_null)] #[nserde(proxy = "MPx")] pub f22: Option<MW>,
    #[nserde(proxy = "MPx")] #[nserde(default)] pub f24: Option<MW>,
    #[nserde(default)] #[nserde(skip)] pub f25: MKind,
    #[nserde(rename = "type26", default)] #[nserde(proxy = "MPx")] pub f26: Option<MW>,
    #[nserde(proxy = "MPx")] #[nserde(serialize_none_as_null)] pub f28: Option<MW>,
    #[nserde(proxy = "MPx")] #[nserde(skip)] pub f30: Option<MW>,
    #[nserde(default_with = "mw_MPDOptionMW_31")] pub f31: Option<Vec<Option<u8>>>,
    #[nserde(proxy = "MPx")] #[nserde(default_with = "mw_MPDOptionMW_32", serialize_none_as_null)] pub f32: Option<MW>,
}
impl Subject for MPDOptionMW  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MPDOptionMW", kind: Kind::Named, transparent: false, container_default: true, fields: &[
        FieldDef { name: "f0", json: "Ren0", ron: "Ren0", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MPDOptionMW_0().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MPDOptionMW_2().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "some_4", ron: "some_4", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MW> = Some(mw(4)); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "Ren6", ron: "Ren6", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: Option<MSmall> = Some(MSmall { x: 9, y: Some(true) }); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MW> = Some(mw(4)); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "some_10", ron: "some_10", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "ключ_13", ron: "ключ_13", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: BTreeMap<String, u8> = mdflt(); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "f14", ron: "f14", ty: <Option<MW> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "some_16", ron: "some_16", ty: <Option<MW> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "f18", ron: "f18", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "f19", ron: "f19", ty: <Option<MSmall> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MPDOptionMW_19().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "f20", ron: "f20", ty: <Option<MW> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MPDOptionMW_20().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f22", json: "f22", ron: "f22", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MW> = Some(mw(4)); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f24", json: "f24", ron: "f24", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f25", json: "f25", ron: "f25", ty: <MKind as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <MKind as Default>::default().to_val()) },
        FieldDef { name: "f26", json: "type26", ron: "type26", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f28", json: "f28", ron: "f28", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f30", json: "f30", ron: "f30", ty: <Option<MW> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f31", json: "f31", ron: "f31", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MPDOptionMW_31().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f32", json: "f32", ron: "f32", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MPDOptionMW_32().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MPDOptionMW { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f4: Subject::from_val(&x[3]), f6: Subject::from_val(&x[4]), f7: Subject::from_val(&x[5]), f8: Subject::from_val(&x[6]), f10: Subject::from_val(&x[7]), f12: Subject::from_val(&x[8]), f13: Subject::from_val(&x[9]), f14: Subject::from_val(&x[10]), f16: Subject::from_val(&x[11]), f18: Subject::from_val(&x[12]), f19: Subject::from_val(&x[13]), f20: Subject::from_val(&x[14]), f22: Subject::from_val(&x[15]), f24: Subject::from_val(&x[16]), f25: Subject::from_val(&x[17]), f26: Subject::from_val(&x[18]), f28: Subject::from_val(&x[19]), f30: Subject::from_val(&x[20]), f31: Subject::from_val(&x[21]), f32: Subject::from_val(&x[22]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f4.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f10.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f16.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val(), self.f22.to_val(), self.f24.to_val(), self.f25.to_val(), self.f26.to_val(), self.f28.to_val(), self.f30.to_val(), self.f31.to_val(), self.f32.to_val()]) }
}
fn mw_MPDOptionMW_0() -> Option<MW> { <Option<MW> as Subject>::from_val(&vcore::gen::sample::<Option<MW>>(3604)) }
fn mw_MPDOptionMW_2() -> Option<MW> { <Option<MW> as Subject>::from_val(&vcore::gen::sample::<Option<MW>>(3606)) }
fn mw_MPDOptionMW_19() -> Option<MSmall> { <Option<MSmall> as Subject>::from_val(&vcore::gen::sample::<Option<MSmall>>(3623)) }
fn mw_MPDOptionMW_20() -> Option<MW> { <Option<MW> as Subject>::from_val(&vcore::gen::sample::<Option<MW>>(3624)) }
fn mw_MPDOptionMW_31() -> Option<Vec<Option<u8>>> { <Option<Vec<Option<u8>>> as Subject>::from_val(&vcore::gen::sample::<Option<Vec<Option<u8>>>>(3635)) }
fn mw_MPDOptionMW_32() -> Option<MW> { <Option<MW> as Subject>::from_val(&vcore::gen::sample::<Option<MW>>(3636)) }

#[derive(SerJson, DeJson)]
#[nserde(serialize_none_as_null)]
pub struct MPNOptionMW {
    #[nserde(rename = "Ren0")] #[nserde(proxy = "MPx")] pub f0: Option<MW>,
    #[nserde(skip)] #[nserde(rename = "ключ_1")] pub f1: i64,
    #[nserde(default)] #[nserde(proxy = "MPx")] pub f2: Option<MW>,
    #[nserde(proxy = "MPx")] #[nserde(serialize_none_as_null)] #[nserde(default = "mw(4)")] pub f4: Option<MW>,
    #[nserde(proxy = "MPx")] pub f6: Option<MW>,
    pub f7: BTreeMap<String, u8>,
    #[nserde(proxy = "MPx")] #[nserde(default = "mw(4)")] pub f8: Option<MW>,
    #[nserde(proxy = "MPx")] #[nserde(serialize_none_as_null, default_with = "mw_MPNOptionMW_10")] pub f10: Option<MW>,
    #[nserde(skip)] #[nserde(rename = "Ren12")] #[nserde(proxy = "MPx")] pub f12: Option<MW>,
    #[nserde(default = 1.5)] #[nserde(skip)] pub f13: f32,
    #[nserde(proxy = "MPx")] #[nserde(default, rename = "type14")] pub f14: Option<MW>,
    #[nserde(proxy = "MPx")] #[nserde(skip)] pub f16: Option<MW>,
    #[nserde(proxy = "MPx")] #[nserde(rename = "Ren18")] #[nserde(default_with = "mw_MPNOptionMW_18")] pub f18: Option<MW>,
    #[nserde(default = true)] #[nserde(rename = "ключ_19")] pub f19: Option<bool>,
    #[nserde(proxy = "MPx")] #[nserde(default_with = "mw_MPNOptionMW_20")] pub f20: Option<MW>,
    #[nserde(skip)] #[nserde(default_with = "mw_MPNOptionMW_22")] #[nserde(proxy = "MPx")] pub f22: Option<MW>,
    #[nserde(proxy = "MPx")] #[nserde(serialize_none_as_null)] pub f24: Option<MW>,
    #[nserde(rename = "ключ_25")] #[nserde(default)] pub f25: Option<Vec<Option<u8>>>,
    #[nserde(default, skip)] #[nserde(proxy = "MPx")] pub f26: Option<MW>,
    #[nserde(proxy = "MPx")] #[nserde(serialize_none_as_null, rename = "some_28")] pub f28: Option<MW>,
    #[nserde(proxy = "MPx")] #[nserde(default)] #[nserde(serialize_none_as_null)] pub f30: Option<MW>,
    #[nserde(default)] pub f31: String,
    #[nserde(default = "mw(4)", rename = "type32", serialize_none_as_null)] #[nserde(proxy = "MPx")] pub f32: Option<MW>,
}
impl Subject for MPNOptionMW  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MPNOptionMW", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "Ren0", ron: "Ren0", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <i64 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <i64 as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MW> = Some(mw(4)); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f7", json: "f7", ron: "f7", ty: <BTreeMap<String, u8> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) },
        FieldDef { name: "f8", json: "f8", ron: "f8", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MW> = Some(mw(4)); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MPNOptionMW_10().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f12", json: "Ren12", ron: "Ren12", ty: <Option<MW> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f13", json: "f13", ron: "f13", ty: <f32 as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: f32 = 1.5; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <f32 as Default>::default().to_val()) },
        FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f16", json: "f16", ron: "f16", ty: <Option<MW> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f18", json: "Ren18", ron: "Ren18", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MPNOptionMW_18().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f19", json: "ключ_19", ron: "ключ_19", ty: <Option<bool> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<bool> = Some(true); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<bool> as Default>::default().to_val()) },
        FieldDef { name: "f20", json: "f20", ron: "f20", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MPNOptionMW_20().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f22", json: "f22", ron: "f22", ty: <Option<MW> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MPNOptionMW_22().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f24", json: "f24", ron: "f24", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f25", json: "ключ_25", ron: "ключ_25", ty: <Option<Vec<Option<u8>>> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<Vec<Option<u8>>> as Default>::default().to_val()) },
        FieldDef { name: "f26", json: "f26", ron: "f26", ty: <Option<MW> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f28", json: "some_28", ron: "some_28", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f30", json: "f30", ron: "f30", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f31", json: "f31", ron: "f31", ty: <String as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f32", json: "type32", ron: "type32", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MW> = Some(mw(4)); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MPNOptionMW { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f4: Subject::from_val(&x[3]), f6: Subject::from_val(&x[4]), f7: Subject::from_val(&x[5]), f8: Subject::from_val(&x[6]), f10: Subject::from_val(&x[7]), f12: Subject::from_val(&x[8]), f13: Subject::from_val(&x[9]), f14: Subject::from_val(&x[10]), f16: Subject::from_val(&x[11]), f18: Subject::from_val(&x[12]), f19: Subject::from_val(&x[13]), f20: Subject::from_val(&x[14]), f22: Subject::from_val(&x[15]), f24: Subject::from_val(&x[16]), f25: Subject::from_val(&x[17]), f26: Subject::from_val(&x[18]), f28: Subject::from_val(&x[19]), f30: Subject::from_val(&x[20]), f31: Subject::from_val(&x[21]), f32: Subject::from_val(&x[22]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f4.to_val(), self.f6.to_val(), self.f7.to_val(), self.f8.to_val(), self.f10.to_val(), self.f12.to_val(), self.f13.to_val(), self.f14.to_val(), self.f16.to_val(), self.f18.to_val(), self.f19.to_val(), self.f20.to_val(), self.f22.to_val(), self.f24.to_val(), self.f25.to_val(), self.f26.to_val(), self.f28.to_val(), self.f30.to_val(), self.f31.to_val(), self.f32.to_val()]) }
}
fn mw_MPNOptionMW_10() -> Option<MW> { <Option<MW> as Subject>::from_val(&vcore::gen::sample::<Option<MW>>(3645)) }
fn mw_MPNOptionMW_18() -> Option<MW> { <Option<MW> as Subject>::from_val(&vcore::gen::sample::<Option<MW>>(3653)) }
fn mw_MPNOptionMW_20() -> Option<MW> { <Option<MW> as Subject>::from_val(&vcore::gen::sample::<Option<MW>>(3655)) }
fn mw_MPNOptionMW_22() -> Option<MW> { <Option<MW> as Subject>::from_val(&vcore::gen::sample::<Option<MW>>(3657)) }

#[derive(SerJson, DeJson)]
pub enum MPEOptionMW {
    V0 { #[nserde(proxy = "MPx")] #[nserde(skip)] #[nserde(rename = "Ren0")] f0: Option<MW>, #[nserde(rename = "ключ_1", default = "a \"b\" {}")] f1: String, #[nserde(serialize_none_as_null)] #[nserde(proxy = "MPx")] f2: Option<MW>, #[nserde(proxy = "MPx")] f4: Option<MW> },
    V1 { #[nserde(default)] #[nserde(proxy = "MPx")] f6: Option<MW>, #[nserde(skip)] f7: u8, #[nserde(default)] #[nserde(rename = "type8")] #[nserde(proxy = "MPx")] f8: Option<MW>, #[nserde(default = "mw(4)")] #[nserde(proxy = "MPx")] f10: Option<MW>, #[nserde(default_with = "mw_MPEOptionMW_12", skip)] #[nserde(proxy = "MPx")] f12: Option<MW> },
    V2 { #[nserde(default = "mdflt()", rename = "ключ_13", skip)] f13: BTreeMap<String, u8> },
    V3 { #[nserde(proxy = "MPx")] #[nserde(rename = "type14")] f14: Option<MW>, #[nserde(serialize_none_as_null, rename = "some_16", default = "mw(4)")] #[nserde(proxy = "MPx")] f16: Option<MW>, #[nserde(proxy = "MPx")] #[nserde(default, skip)] f18: Option<MW>, #[nserde(rename = "ключ_19")] f19: Option<MSmall>, #[nserde(proxy = "MPx")] #[nserde(default_with = "mw_MPEOptionMW_20")] #[nserde(serialize_none_as_null)] f20: Option<MW>, #[nserde(proxy = "MPx")] #[nserde(serialize_none_as_null, rename = "some_22")] f22: Option<MW>, #[nserde(serialize_none_as_null, default)] #[nserde(proxy = "MPx")] f24: Option<MW>, #[nserde(default = "true")] f25: bool, #[nserde(default_with = "mw_MPEOptionMW_26")] #[nserde(rename = "type26")] #[nserde(proxy = "MPx")] f26: Option<MW>, #[nserde(serialize_none_as_null, default = "mw(4)")] #[nserde(proxy = "MPx")] f28: Option<MW>, #[nserde(proxy = "MPx")] #[nserde(default_with = "mw_MPEOptionMW_30")] f30: Option<MW>, #[nserde(rename = "ключ_31", default)] f31: Option<u8>, #[nserde(proxy = "MPx")] #[nserde(skip)] f32: Option<MW> },
}
impl Subject for MPEOptionMW {
    const TY: TyRef = &Ty::Enum(&EnumDef { name: "MPEOptionMW", variants: &[VariantDef { name: "V0", json: "V0", kind: Kind::Named, fields: &[FieldDef { name: "f0", json: "Ren0", ron: "Ren0", ty: <Option<MW> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) }, FieldDef { name: "f1", json: "ключ_1", ron: "ключ_1", ty: <String as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: String = String::from("a \"b\" {}"); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) }, FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) }, FieldDef { name: "f4", json: "f4", ron: "f4", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) }] }, VariantDef { name: "V1", json: "V1", kind: Kind::Named, fields: &[FieldDef { name: "f6", json: "f6", ron: "f6", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) }, FieldDef { name: "f7", json: "f7", ron: "f7", ty: <u8 as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) }, FieldDef { name: "f8", json: "type8", ron: "type8", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) }, FieldDef { name: "f10", json: "f10", ron: "f10", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MW> = Some(mw(4)); x.to_val() }), is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) }, FieldDef { name: "f12", json: "f12", ron: "f12", ty: <Option<MW> as Subject>::ty, skip: true, dflt: Dflt::Value(|| mw_MPEOptionMW_12().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) }] }, VariantDef { name: "V2", json: "V2", kind: Kind::Named, fields: &[FieldDef { name: "f13", json: "ключ_13", ron: "ключ_13", ty: <BTreeMap<String, u8> as Subject>::ty, skip: true, dflt: Dflt::Value(|| { let x: BTreeMap<String, u8> = mdflt(); x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <BTreeMap<String, u8> as Default>::default().to_val()) }] }, VariantDef { name: "V3", json: "V3", kind: Kind::Named, fields: &[FieldDef { name: "f14", json: "type14", ron: "type14", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) }, FieldDef { name: "f16", json: "some_16", ron: "some_16", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MW> = Some(mw(4)); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) }, FieldDef { name: "f18", json: "f18", ron: "f18", ty: <Option<MW> as Subject>::ty, skip: true, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) }, FieldDef { name: "f19", json: "ключ_19", ron: "ключ_19", ty: <Option<MSmall> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MSmall> as Default>::default().to_val()) }, FieldDef { name: "f20", json: "f20", ron: "f20", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MPEOptionMW_20().to_val()), is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) }, FieldDef { name: "f22", json: "some_22", ron: "some_22", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) }, FieldDef { name: "f24", json: "f24", ron: "f24", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) }, FieldDef { name: "f25", json: "f25", ron: "f25", ty: <bool as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: bool = true; x.to_val() }), is_opt: false, null_none: false, type_default: Some(|| <bool as Default>::default().to_val()) }, FieldDef { name: "f26", json: "type26", ron: "type26", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MPEOptionMW_26().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) }, FieldDef { name: "f28", json: "f28", ron: "f28", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::Value(|| { let x: Option<MW> = Some(mw(4)); x.to_val() }), is_opt: true, null_none: true, type_default: Some(|| <Option<MW> as Default>::default().to_val()) }, FieldDef { name: "f30", json: "f30", ron: "f30", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::Value(|| mw_MPEOptionMW_30().to_val()), is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) }, FieldDef { name: "f31", json: "ключ_31", ron: "ключ_31", ty: <Option<u8> as Subject>::ty, skip: false, dflt: Dflt::TypeDefault, is_opt: true, null_none: false, type_default: Some(|| <Option<u8> as Default>::default().to_val()) }, FieldDef { name: "f32", json: "f32", ron: "f32", ty: <Option<MW> as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) }] }] });
    fn from_val(v: &Val) -> Self { let Val::Enum(i_, x_) = v else { panic!("harness: shape") }; let _ = x_; match i_ { 0 => Self::V0 { f0: Subject::from_val(&x_[0]), f1: Subject::from_val(&x_[1]), f2: Subject::from_val(&x_[2]), f4: Subject::from_val(&x_[3]) }, 1 => Self::V1 { f6: Subject::from_val(&x_[0]), f7: Subject::from_val(&x_[1]), f8: Subject::from_val(&x_[2]), f10: Subject::from_val(&x_[3]), f12: Subject::from_val(&x_[4]) }, 2 => Self::V2 { f13: Subject::from_val(&x_[0]) }, 3 => Self::V3 { f14: Subject::from_val(&x_[0]), f16: Subject::from_val(&x_[1]), f18: Subject::from_val(&x_[2]), f19: Subject::from_val(&x_[3]), f20: Subject::from_val(&x_[4]), f22: Subject::from_val(&x_[5]), f24: Subject::from_val(&x_[6]), f25: Subject::from_val(&x_[7]), f26: Subject::from_val(&x_[8]), f28: Subject::from_val(&x_[9]), f30: Subject::from_val(&x_[10]), f31: Subject::from_val(&x_[11]), f32: Subject::from_val(&x_[12]) }, _ => panic!("harness: shape") } }
    fn to_val(&self) -> Val { match self { Self::V0 { f0: b0, f1: b1, f2: b2, f4: b3 } => Val::Enum(0, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val()]), Self::V1 { f6: b0, f7: b1, f8: b2, f10: b3, f12: b4 } => Val::Enum(1, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val(), b4.to_val()]), Self::V2 { f13: b0 } => Val::Enum(2, vec![b0.to_val()]), Self::V3 { f14: b0, f16: b1, f18: b2, f19: b3, f20: b4, f22: b5, f24: b6, f25: b7, f26: b8, f28: b9, f30: b10, f31: b11, f32: b12 } => Val::Enum(3, vec![b0.to_val(), b1.to_val(), b2.to_val(), b3.to_val(), b4.to_val(), b5.to_val(), b6.to_val(), b7.to_val(), b8.to_val(), b9.to_val(), b10.to_val(), b11.to_val(), b12.to_val()]), } }
}
fn mw_MPEOptionMW_12() -> Option<MW> { <Option<MW> as Subject>::from_val(&vcore::gen::sample::<Option<MW>>(3678)) }
fn mw_MPEOptionMW_20() -> Option<MW> { <Option<MW> as Subject>::from_val(&vcore::gen::sample::<Option<MW>>(3686)) }
fn mw_MPEOptionMW_26() -> Option<MW> { <Option<MW> as Subject>::from_val(&vcore::gen::sample::<Option<MW>>(3692)) }
fn mw_MPEOptionMW_30() -> Option<MW> { <Option<MW> as Subject>::from_val(&vcore::gen::sample::<Option<MW>>(3696)) }

#[derive(SerBin, DeBin)]
pub struct MPBin {
    #[nserde(proxy = "MPx")] pub f0: MW,
    pub f1: u8,
    #[nserde(proxy = "MPo")] pub f2: Option<MW>,
    #[nserde(proxy = "MPx")] pub f3: MW,
}
impl Subject for MPBin  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MPBin", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "f2", json: "f2", ron: "f2", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "f3", json: "f3", ron: "f3", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MPBin { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]), f2: Subject::from_val(&x[2]), f3: Subject::from_val(&x[3]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val(), self.f3.to_val()]) }
}


#[derive(SerBin, DeBin)]
pub struct MPBinLast {
    pub f0: String,
    #[nserde(proxy = "MPx")] pub f1: MW,
}
impl Subject for MPBinLast  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MPBinLast", kind: Kind::Named, transparent: false, container_default: false, fields: &[
        FieldDef { name: "f0", json: "f0", ron: "f0", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "f1", json: "f1", ron: "f1", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MPBinLast { f0: Subject::from_val(&x[0]), f1: Subject::from_val(&x[1]) } }
    fn to_val(&self) -> Val { Val::Rec(vec![self.f0.to_val(), self.f1.to_val()]) }
}


#[derive(SerBin, DeBin)]
pub struct MPBinTup(#[nserde(proxy = "MPx")] pub MW, pub u8, #[nserde(proxy = "MPo")] pub Option<MW>, #[nserde(proxy = "MPx")] pub MW);
impl Subject for MPBinTup  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MPBinTup", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "f0", ron: "f0", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "", json: "f1", ron: "f1", ty: <u8 as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <u8 as Default>::default().to_val()) },
        FieldDef { name: "", json: "f2", ron: "f2", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) },
        FieldDef { name: "", json: "f3", ron: "f3", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MPBinTup(Subject::from_val(&x[0]), Subject::from_val(&x[1]), Subject::from_val(&x[2]), Subject::from_val(&x[3])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val(), self.3.to_val()]) }
}

#[derive(SerBin, DeBin)]
pub struct MPBinOne(#[nserde(proxy = "MPx")] pub MW);
impl Subject for MPBinOne  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MPBinOne", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "f0", ron: "f0", ty: <MW as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MPBinOne(Subject::from_val(&x[0])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val()]) }
}

#[derive(SerBin, DeBin)]
pub struct MPBinSkip(pub String, #[nserde(proxy = "MPx")] #[nserde(skip)] pub MW, #[nserde(proxy = "MPo")] pub Option<MW>);
impl Subject for MPBinSkip  {
    const TY: TyRef = &Ty::Struct(&StructDef { name: "MPBinSkip", kind: Kind::Tuple, transparent: false, container_default: false, fields: &[
        FieldDef { name: "", json: "f0", ron: "f0", ty: <String as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <String as Default>::default().to_val()) },
        FieldDef { name: "", json: "f1", ron: "f1", ty: <MW as Subject>::ty, skip: true, dflt: Dflt::None, is_opt: false, null_none: false, type_default: Some(|| <MW as Default>::default().to_val()) },
        FieldDef { name: "", json: "f2", ron: "f2", ty: <Option<MW> as Subject>::ty, skip: false, dflt: Dflt::None, is_opt: true, null_none: false, type_default: Some(|| <Option<MW> as Default>::default().to_val()) }] });
    fn from_val(v: &Val) -> Self { #[allow(unused)] let x = rec(v); MPBinSkip(Subject::from_val(&x[0]), Subject::from_val(&x[1]), Subject::from_val(&x[2])) }
    fn to_val(&self) -> Val { Val::Rec(vec![self.0.to_val(), self.1.to_val(), self.2.to_val()]) }
}

pub fn reg() -> Vec<Entry> {
    vec![
        entry!(MSu8; bin json ron),
        entry!(MDu8; bin json ron),
        entry!(MEu8; bin json ron),
        entry!(MSi64; bin json ron),
        entry!(MDi64; bin json ron),
        entry!(MEi64; bin json ron),
        entry!(MSf32; bin json ron),
        entry!(MDf32; bin json ron),
        entry!(MEf32; bin json ron),
        entry!(MSbool; bin json ron),
        entry!(MDbool; bin json ron),
        entry!(MEbool; bin json ron),
        entry!(MSString; bin json ron),
        entry!(MDString; bin json ron),
        entry!(MEString; bin json ron),
        entry!(MSi16; bin json ron),
        entry!(MDi16; bin json ron),
        entry!(MEi16; bin json ron),
        entry!(MSOptionf64; bin json ron),
        entry!(MDOptionf64; bin json ron),
        entry!(MNOptionf64; bin json ron),
        entry!(MBOptionf64; bin json ron),
        entry!(MEOptionf64; bin json ron),
        entry!(MSOptionbool; bin json ron),
        entry!(MDOptionbool; bin json ron),
        entry!(MNOptionbool; bin json ron),
        entry!(MBOptionbool; bin json ron),
        entry!(MEOptionbool; bin json ron),
        entry!(MSStringAgain; bin json ron),
        entry!(MDStringAgain; bin json ron),
        entry!(MEStringAgain; bin json ron),
        entry!(MSVecString; bin json ron),
        entry!(MDVecString; bin json ron),
        entry!(MEVecString; bin json ron),
        entry!(MSOptionVecString; bin json ron),
        entry!(MDOptionVecString; bin json ron),
        entry!(MNOptionVecString; bin json ron),
        entry!(MBOptionVecString; bin json ron),
        entry!(MEOptionVecString; bin json ron),
        entry!(MSVecu16; bin json ron),
        entry!(MDVecu16; bin json ron),
        entry!(MEVecu16; bin json ron),
        entry!(MSu8String; bin json ron),
        entry!(MDu8String; bin json ron),
        entry!(MEu8String; bin json ron),
        entry!(MSMSmall; bin json ron),
        entry!(MDMSmall; bin json ron),
        entry!(MEMSmall; bin json ron),
        entry!(MSMKind; bin json ron),
        entry!(MDMKind; bin json ron),
        entry!(MEMKind; bin json ron),
        entry!(MSBTreeMapStringu8; bin json ron),
        entry!(MDBTreeMapStringu8; bin json ron),
        entry!(MEBTreeMapStringu8; bin json ron),
        entry!(MSOptionu8; bin json ron),
        entry!(MDOptionu8; bin json ron),
        entry!(MNOptionu8; bin json ron),
        entry!(MBOptionu8; bin json ron),
        entry!(MEOptionu8; bin json ron),
        entry!(MSOptionString; bin json ron),
        entry!(MDOptionString; bin json ron),
        entry!(MNOptionString; bin json ron),
        entry!(MBOptionString; bin json ron),
        entry!(MEOptionString; bin json ron),
        entry!(MSOptionMSmall; bin json ron),
        entry!(MDOptionMSmall; bin json ron),
        entry!(MNOptionMSmall; bin json ron),
        entry!(MBOptionMSmall; bin json ron),
        entry!(MEOptionMSmall; bin json ron),
        entry!(MSOptionMKind; bin json ron),
        entry!(MDOptionMKind; bin json ron),
        entry!(MNOptionMKind; bin json ron),
        entry!(MBOptionMKind; bin json ron),
        entry!(MEOptionMKind; bin json ron),
        entry!(MSOptionVecOptionu8; bin json ron),
        entry!(MDOptionVecOptionu8; bin json ron),
        entry!(MNOptionVecOptionu8; bin json ron),
        entry!(MBOptionVecOptionu8; bin json ron),
        entry!(MEOptionVecOptionu8; bin json ron),
        entry!(MPXMW; json),
        entry!(MPDMW; json),
        entry!(MPNMW; json),
        entry!(MPEMW; json),
        entry!(MPXOptionMW; json),
        entry!(MPDOptionMW; json),
        entry!(MPNOptionMW; json),
        entry!(MPEOptionMW; json),
        entry!(MPBin; bin),
        entry!(MPBinLast; bin),
        entry!(MPBinTup; bin),
        entry!(MPBinOne; bin),
        entry!(MPBinSkip; bin),
    ]
}
