//! The neutral value model: every subject type is described by a schema (`Ty`) and can be
//! converted to and from `Val`, so generators, oracles and writers are not generic.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList};
use std::hash::{BuildHasher, Hash};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

pub type TyRef = &'static Ty;

pub enum Ty {
    Unit,
    Bool,
    /// unsigned, number of bits
    U(u8),
    /// signed, number of bits
    I(u8),
    F32,
    F64,
    Str,
    Dur,
    Time,
    Opt(TyRef),
    Seq(TyRef),
    Set(bool, TyRef),
    Arr(usize, TyRef),
    Tup(&'static [TyRef]),
    /// (hashed, key, value)
    Map(bool, TyRef, TyRef),
    Struct(&'static StructDef),
    Enum(&'static EnumDef),
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Kind {
    Named,
    Tuple,
    Unit,
}

pub struct StructDef {
    pub name: &'static str,
    pub kind: Kind,
    pub transparent: bool,
    pub container_default: bool,
    pub fields: &'static [FieldDef],
}

pub enum Dflt {
    None,
    /// `#[nserde(default)]`
    TypeDefault,
    /// `#[nserde(default = ..)]` / `default_with`
    Value(fn() -> Val),
}

pub struct FieldDef {
    pub name: &'static str,
    pub json: &'static str,
    pub ron: &'static str,
    pub ty: fn() -> TyRef,
    pub skip: bool,
    pub dflt: Dflt,
    pub is_opt: bool,
    pub null_none: bool,
    pub type_default: Option<fn() -> Val>,
}

pub struct EnumDef {
    pub name: &'static str,
    pub variants: &'static [VariantDef],
}

pub struct VariantDef {
    pub name: &'static str,
    pub json: &'static str,
    pub kind: Kind,
    pub fields: &'static [FieldDef],
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Val {
    Unit,
    Bool(bool),
    U(u128),
    I(i128),
    F32(u32),
    F64(u64),
    Str(String),
    Dur(u64, u32),
    /// None: before the epoch
    Time(Option<(u64, u32)>),
    Opt(Option<Box<Val>>),
    Seq(Vec<Val>),
    Set(Vec<Val>),
    Arr(Vec<Val>),
    Tup(Vec<Val>),
    Map(Vec<(Val, Val)>),
    Rec(Vec<Val>),
    Enum(usize, Vec<Val>),
}

impl Val {
    pub fn show(&self) -> String {
        let mut s = format!("{:?}", self);
        if s.len() > 600 {
            let mut n = 600;
            while !s.is_char_boundary(n) {
                n -= 1
            }
            s.truncate(n);
            s.push_str("...");
        }
        s
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fmt {
    Bin,
    Json,
    Ron,
}

pub trait Subject: Sized + 'static {
    const TY: TyRef;
    fn ty() -> TyRef {
        Self::TY
    }
    fn from_val(v: &Val) -> Self;
    fn to_val(&self) -> Val;
}

macro_rules! ints {
    ($($t:ident $k:ident $bits:expr;)*) => {$(
        impl Subject for $t {
            const TY: TyRef = &Ty::$k($bits);
            fn from_val(v: &Val) -> Self { match v { Val::$k(x) => *x as $t, _ => panic!("harness: shape {:?}", v) } }
            fn to_val(&self) -> Val { Val::$k(*self as _) }
        }
    )*};
}
ints! { u8 U 8; u16 U 16; u32 U 32; u64 U 64; u128 U 128; usize U 64; i8 I 8; i16 I 16; i32 I 32; i64 I 64; i128 I 128; }

impl Subject for () {
    const TY: TyRef = &Ty::Unit;
    fn from_val(_: &Val) -> Self {}
    fn to_val(&self) -> Val {
        Val::Unit
    }
}
impl Subject for bool {
    const TY: TyRef = &Ty::Bool;
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Bool(b) => *b,
            _ => panic!("harness: shape"),
        }
    }
    fn to_val(&self) -> Val {
        Val::Bool(*self)
    }
}
impl Subject for f32 {
    const TY: TyRef = &Ty::F32;
    fn from_val(v: &Val) -> Self {
        match v {
            Val::F32(b) => f32::from_bits(*b),
            _ => panic!("harness: shape"),
        }
    }
    fn to_val(&self) -> Val {
        Val::F32(self.to_bits())
    }
}
impl Subject for f64 {
    const TY: TyRef = &Ty::F64;
    fn from_val(v: &Val) -> Self {
        match v {
            Val::F64(b) => f64::from_bits(*b),
            _ => panic!("harness: shape"),
        }
    }
    fn to_val(&self) -> Val {
        Val::F64(self.to_bits())
    }
}
impl Subject for String {
    const TY: TyRef = &Ty::Str;
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Str(b) => b.clone(),
            _ => panic!("harness: shape"),
        }
    }
    fn to_val(&self) -> Val {
        Val::Str(self.clone())
    }
}
impl Subject for Duration {
    const TY: TyRef = &Ty::Dur;
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Dur(s, n) => Duration::new(*s, *n),
            _ => panic!("harness: shape"),
        }
    }
    fn to_val(&self) -> Val {
        Val::Dur(self.as_secs(), self.subsec_nanos())
    }
}
impl Subject for SystemTime {
    const TY: TyRef = &Ty::Time;
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Time(Some((s, n))) => UNIX_EPOCH + Duration::new(*s, *n),
            Val::Time(None) => UNIX_EPOCH - Duration::new(1, 500),
            _ => panic!("harness: shape"),
        }
    }
    fn to_val(&self) -> Val {
        match self.duration_since(UNIX_EPOCH) {
            Ok(d) => Val::Time(Some((d.as_secs(), d.subsec_nanos()))),
            Err(_) => Val::Time(None),
        }
    }
}
impl<T: Subject> Subject for Box<T> {
    const TY: TyRef = T::TY;
    fn from_val(v: &Val) -> Self {
        Box::new(T::from_val(v))
    }
    fn to_val(&self) -> Val {
        (**self).to_val()
    }
}
impl<T: Subject> Subject for Option<T> {
    const TY: TyRef = &Ty::Opt(T::TY);
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Opt(o) => o.as_ref().map(|x| T::from_val(x)),
            _ => panic!("harness: shape"),
        }
    }
    fn to_val(&self) -> Val {
        Val::Opt(self.as_ref().map(|x| Box::new(x.to_val())))
    }
}
fn seq(v: &Val) -> &[Val] {
    match v {
        Val::Seq(x) | Val::Set(x) | Val::Arr(x) | Val::Tup(x) | Val::Rec(x) => x,
        _ => panic!("harness: shape {:?}", v),
    }
}
pub fn rec(v: &Val) -> &[Val] {
    seq(v)
}
impl<T: Subject> Subject for Vec<T> {
    const TY: TyRef = &Ty::Seq(T::TY);
    fn from_val(v: &Val) -> Self {
        seq(v).iter().map(T::from_val).collect()
    }
    fn to_val(&self) -> Val {
        Val::Seq(self.iter().map(T::to_val).collect())
    }
}
impl<T: Subject> Subject for LinkedList<T> {
    const TY: TyRef = &Ty::Seq(T::TY);
    fn from_val(v: &Val) -> Self {
        seq(v).iter().map(T::from_val).collect()
    }
    fn to_val(&self) -> Val {
        Val::Seq(self.iter().map(T::to_val).collect())
    }
}
impl<T: Subject + Ord> Subject for BTreeSet<T> {
    const TY: TyRef = &Ty::Set(false, T::TY);
    fn from_val(v: &Val) -> Self {
        seq(v).iter().map(T::from_val).collect()
    }
    fn to_val(&self) -> Val {
        let mut x: Vec<Val> = self.iter().map(T::to_val).collect();
        x.sort();
        Val::Set(x)
    }
}
impl<T: Subject + Hash + Eq> Subject for HashSet<T> {
    const TY: TyRef = &Ty::Set(true, T::TY);
    fn from_val(v: &Val) -> Self {
        seq(v).iter().map(T::from_val).collect()
    }
    fn to_val(&self) -> Val {
        let mut x: Vec<Val> = self.iter().map(T::to_val).collect();
        x.sort();
        Val::Set(x)
    }
}
impl<T: Subject, const N: usize> Subject for [T; N] {
    const TY: TyRef = &Ty::Arr(N, T::TY);
    fn from_val(v: &Val) -> Self {
        let s = seq(v);
        assert_eq!(s.len(), N, "harness: array length");
        core::array::from_fn(|i| T::from_val(&s[i]))
    }
    fn to_val(&self) -> Val {
        Val::Arr(self.iter().map(T::to_val).collect())
    }
}
macro_rules! tups {
    ($(($($t:ident $i:tt),*))*) => {$(
        impl<$($t: Subject),*> Subject for ($($t,)*) {
            const TY: TyRef = &Ty::Tup(&[$($t::TY),*]);
            fn from_val(v: &Val) -> Self { let s = seq(v); ($($t::from_val(&s[$i]),)*) }
            fn to_val(&self) -> Val { Val::Tup(vec![$(self.$i.to_val()),*]) }
        }
    )*};
}
tups! { (A 0, B 1) (A 0, B 1, C 2) (A 0, B 1, C 2, D 3) }

fn map(v: &Val) -> &[(Val, Val)] {
    match v {
        Val::Map(x) => x,
        _ => panic!("harness: shape"),
    }
}
impl<K: Subject + Ord, V: Subject> Subject for BTreeMap<K, V> {
    const TY: TyRef = &Ty::Map(false, K::TY, V::TY);
    fn from_val(v: &Val) -> Self {
        map(v).iter().map(|(k, v)| (K::from_val(k), V::from_val(v))).collect()
    }
    fn to_val(&self) -> Val {
        let mut x: Vec<_> = self.iter().map(|(k, v)| (k.to_val(), v.to_val())).collect();
        x.sort();
        Val::Map(x)
    }
}
impl<K: Subject + Hash + Eq, V: Subject, S: BuildHasher + Default + 'static> Subject for HashMap<K, V, S> {
    const TY: TyRef = &Ty::Map(true, K::TY, V::TY);
    fn from_val(v: &Val) -> Self {
        map(v).iter().map(|(k, v)| (K::from_val(k), V::from_val(v))).collect()
    }
    fn to_val(&self) -> Val {
        let mut x: Vec<_> = self.iter().map(|(k, v)| (k.to_val(), v.to_val())).collect();
        x.sort();
        Val::Map(x)
    }
}

/// The value a skipped or missing field gets, if it has one.
pub fn missing_value(f: &FieldDef, container_default: bool) -> Option<Val> {
    let td = || (f.type_default.expect("harness: type_default"))();
    match &f.dflt {
        Dflt::Value(v) => Some(v()),
        Dflt::TypeDefault => Some(if f.is_opt { Val::Opt(None) } else { td() }),
        Dflt::None if f.is_opt => Some(Val::Opt(None)),
        Dflt::None if container_default || f.skip => Some(td()),
        Dflt::None => None,
    }
}

/// Does `fmt` leave this field out?
pub fn skipped(f: &FieldDef, fmt: Fmt, kind: Kind, in_enum: bool) -> bool {
    f.skip
        && match fmt {
            Fmt::Bin => !in_enum,
            Fmt::Json => kind == Kind::Named,
            Fmt::Ron => kind == Kind::Named || !in_enum,
        }
}

/// What a value comes back as after a trip through `fmt` (skipped fields take their default,
/// times before the epoch become the epoch).
pub fn normalize(v: &Val, ty: TyRef, fmt: Fmt) -> Val {
    norm(v, ty, fmt, false)
}
/// The same, but times before the epoch stay apart.
pub fn normalize_keep(v: &Val, ty: TyRef, fmt: Fmt) -> Val {
    norm(v, ty, fmt, true)
}
fn norm(v: &Val, ty: TyRef, fmt: Fmt, keep: bool) -> Val {
    let many = |xs: &[Val], t: TyRef| -> Vec<Val> { xs.iter().map(|x| norm(x, t, fmt, keep)).collect() };
    match (ty, v) {
        (Ty::Time, Val::Time(None)) if !keep => Val::Time(Some((0, 0))),
        (Ty::Opt(t), Val::Opt(Some(x))) => Val::Opt(Some(Box::new(norm(x, t, fmt, keep)))),
        (Ty::Seq(t), Val::Seq(x)) => Val::Seq(many(x, t)),
        (Ty::Set(_, t), Val::Set(x)) => {
            let mut y = many(x, t);
            y.sort();
            y.dedup();
            Val::Set(y)
        }
        (Ty::Arr(_, t), Val::Arr(x)) => Val::Arr(many(x, t)),
        (Ty::Tup(ts), Val::Tup(x)) => Val::Tup(x.iter().zip(ts.iter()).map(|(x, t)| norm(x, t, fmt, keep)).collect()),
        (Ty::Map(_, k, t), Val::Map(x)) => {
            Val::Map(x.iter().map(|(a, b)| (norm(a, k, fmt, keep), norm(b, t, fmt, keep))).collect())
        }
        (Ty::Struct(d), Val::Rec(x)) => Val::Rec(
            x.iter().zip(d.fields).map(|(x, f)| norm_field(x, f, fmt, d.kind, false, keep)).collect(),
        ),
        (Ty::Enum(d), Val::Enum(i, x)) => Val::Enum(
            *i,
            x.iter()
                .zip(d.variants[*i].fields)
                .map(|(x, f)| norm_field(x, f, fmt, d.variants[*i].kind, true, keep))
                .collect(),
        ),
        _ => v.clone(),
    }
}
fn norm_field(x: &Val, f: &FieldDef, fmt: Fmt, kind: Kind, in_enum: bool, keep: bool) -> Val {
    if skipped(f, fmt, kind, in_enum) {
        if fmt == Fmt::Bin || kind == Kind::Tuple {
            (f.type_default.expect("harness: type_default"))()
        } else {
            missing_value(f, false).unwrap()
        }
    } else if fmt != Fmt::Bin && kind == Kind::Named && f.is_opt && *x == Val::Opt(None) && !(fmt == Fmt::Json && f.null_none) {
        // left out, so it comes back as what a missing field becomes
        missing_value(f, false).unwrap()
    } else {
        norm(x, (f.ty)(), fmt, keep)
    }
}

/// Number of nodes.
pub fn size(v: &Val) -> usize {
    match v {
        Val::Opt(Some(x)) => 1 + size(x),
        Val::Seq(x) | Val::Set(x) | Val::Arr(x) | Val::Tup(x) | Val::Rec(x) | Val::Enum(_, x) => {
            1 + x.iter().map(size).sum::<usize>()
        }
        Val::Map(x) => 1 + x.iter().map(|(a, b)| size(a) + size(b)).sum::<usize>(),
        Val::Str(s) => 1 + s.len() / 8,
        _ => 1,
    }
}

/// Calls `f` on every type reachable from `ty` (structs and enums once each).
pub fn visit_types(ty: TyRef, f: &mut dyn FnMut(TyRef)) {
    fn go(ty: TyRef, seen: &mut Vec<*const u8>, f: &mut dyn FnMut(TyRef)) {
        let key: *const u8 = match ty {
            Ty::Struct(d) => *d as *const StructDef as *const u8,
            Ty::Enum(d) => *d as *const EnumDef as *const u8,
            _ => std::ptr::null(),
        };
        if !key.is_null() {
            if seen.contains(&key) {
                return;
            }
            seen.push(key);
        }
        f(ty);
        match ty {
            Ty::Opt(t) | Ty::Seq(t) | Ty::Set(_, t) | Ty::Arr(_, t) => go(t, seen, f),
            Ty::Map(_, k, v) => {
                go(k, seen, f);
                go(v, seen, f)
            }
            Ty::Tup(ts) => ts.iter().for_each(|t| go(t, seen, f)),
            Ty::Struct(d) => d.fields.iter().for_each(|x| go((x.ty)(), seen, f)),
            Ty::Enum(d) => d.variants.iter().for_each(|v| v.fields.iter().for_each(|x| go((x.ty)(), seen, f))),
            _ => {}
        }
    }
    go(ty, &mut vec![], f)
}
/// JSON output of every value of the type is standard (all map keys are written as strings).
pub fn std_json_keys(ty: TyRef) -> bool {
    let mut ok = true;
    visit_types(ty, &mut |t| {
        if let Ty::Map(_, k, _) = t {
            ok &= string_key(k)
        }
    });
    ok
}
pub fn string_key(k: TyRef) -> bool {
    match k {
        Ty::Str => true,
        Ty::Enum(d) => d.variants.iter().all(|v| v.kind == Kind::Unit),
        Ty::Struct(d) => d.transparent && d.fields.len() == 1 && string_key((d.fields[0].ty)()),
        _ => false,
    }
}
/// Types for which a text format can tell all values apart (no Option directly in Option, ...).
pub fn text_lossless(ty: TyRef, json: bool) -> bool {
    fn nullable(t: TyRef, json: bool) -> bool {
        match t {
            Ty::Opt(_) => true,
            Ty::Time => true,
            Ty::Unit => json,
            Ty::Struct(d) => d.transparent && json && d.fields.len() == 1 && nullable((d.fields[0].ty)(), json),
            Ty::Enum(d) => !json && d.variants.iter().any(|v| v.name == "None"),
            _ => false,
        }
    }
    let mut ok = true;
    visit_types(ty, &mut |t| {
        if let Ty::Opt(x) = t {
            ok &= !nullable(x, json)
        }
        if let Ty::U(128) | Ty::I(128) = t {
            ok = false
        }
    });
    ok
}
/// May encodings of the type take no bytes at all in the binary format?
pub fn may_be_empty_bin(ty: TyRef) -> bool {
    match ty {
        Ty::Unit => true,
        Ty::Arr(n, t) => *n == 0 || may_be_empty_bin(t),
        Ty::Tup(ts) => ts.iter().all(|t| may_be_empty_bin(t)),
        Ty::Struct(d) => d.fields.iter().all(|f| f.skip || may_be_empty_bin((f.ty)())),
        _ => false,
    }
}
pub fn has_hash(ty: TyRef) -> bool {
    let mut h = false;
    visit_types(ty, &mut |t| h |= matches!(t, Ty::Set(true, _) | Ty::Map(true, _, _)));
    h
}
