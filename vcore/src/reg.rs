//! The subject types and what can be done with them.
use crate::engine::live;
use crate::val::*;
use nanoserde::*;
use std::str::Chars;

#[derive(Debug, Clone, PartialEq)]
pub struct BinE {
    pub o: usize,
    pub msg: String,
}
#[derive(Debug, Clone, PartialEq)]
pub struct TxtE {
    pub line: usize,
    pub col: usize,
    pub msg: String,
}
#[derive(Clone, Copy)]
pub struct BinF {
    pub ser: fn(&Val) -> Vec<u8>,
    /// appended to the given buffer, twice, from the same value
    pub ser_into: fn(&Val, &mut Vec<u8>),
    pub de: fn(&[u8]) -> Result<Val, BinE>,
    pub de_at: fn(&mut usize, &[u8]) -> Result<Val, BinE>,
    pub leak: fn(&[u8]) -> (bool, isize),
}
#[derive(Clone, Copy)]
pub struct JsonF {
    pub ser: fn(&Val) -> String,
    pub ser_into: fn(&Val, usize, &mut SerJsonState),
    pub de: fn(&str) -> Result<Val, TxtE>,
    pub de_st: fn(&mut DeJsonState, &mut Chars) -> Result<Val, TxtE>,
    pub leak: fn(&str) -> (bool, isize),
}
#[derive(Clone, Copy)]
pub struct RonF {
    pub ser: fn(&Val) -> String,
    pub ser_into: fn(&Val, usize, &mut SerRonState),
    pub de: fn(&str) -> Result<Val, TxtE>,
    pub de_st: fn(&mut DeRonState, &mut Chars) -> Result<Val, TxtE>,
    pub leak: fn(&str) -> (bool, isize),
}
#[derive(Clone, Copy)]
pub struct Entry {
    pub name: &'static str,
    pub ty: fn() -> TyRef,
    pub size: usize,
    pub bin: Option<BinF>,
    pub json: Option<JsonF>,
    pub ron: Option<RonF>,
}
pub fn bin_e(e: DeBinErr) -> BinE {
    BinE { o: e.o, msg: e.to_string() }
}
pub fn json_e(e: DeJsonErr) -> TxtE {
    TxtE { line: e.line, col: e.col, msg: e.to_string() }
}
pub fn ron_e(e: DeRonErr) -> TxtE {
    TxtE { line: e.line, col: e.col, msg: e.to_string() }
}
fn leaky<T, E>(f: impl FnOnce() -> Result<T, E>) -> (bool, isize) {
    let a = live();
    let ok = f().is_ok();
    (ok, live() as isize - a as isize)
}

pub trait BinS: Subject + SerBin + DeBin {
    const F: BinF = BinF {
        ser: |v| Self::from_val(v).serialize_bin(),
        ser_into: |v, o| {
            let x = Self::from_val(v);
            x.ser_bin(o);
            x.ser_bin(o)
        },
        de: |b| Self::deserialize_bin(b).map(|x| x.to_val()).map_err(bin_e),
        de_at: |o, b| Self::de_bin(o, b).map(|x| x.to_val()).map_err(bin_e),
        leak: |b| leaky(|| Self::deserialize_bin(b)),
    };
}
impl<T: Subject + SerBin + DeBin> BinS for T {}
pub trait JsonS: Subject + SerJson + DeJson {
    const F: JsonF = JsonF {
        ser: |v| Self::from_val(v).serialize_json(),
        ser_into: |v, d, s| {
            let x = Self::from_val(v);
            x.ser_json(d, s);
            s.out.push('\u{1}');
            x.ser_json(0, s)
        },
        de: |b| Self::deserialize_json(b).map(|x| x.to_val()).map_err(json_e),
        de_st: |s, i| Self::de_json(s, i).map(|x| x.to_val()).map_err(json_e),
        leak: |b| leaky(|| Self::deserialize_json(b)),
    };
}
impl<T: Subject + SerJson + DeJson> JsonS for T {}
pub trait RonS: Subject + SerRon + DeRon {
    const F: RonF = RonF {
        ser: |v| Self::from_val(v).serialize_ron(),
        ser_into: |v, d, s| {
            let x = Self::from_val(v);
            x.ser_ron(d, s);
            s.out.push('\u{1}');
            x.ser_ron(0, s)
        },
        de: |b| Self::deserialize_ron(b).map(|x| x.to_val()).map_err(ron_e),
        de_st: |s, i| Self::de_ron(s, i).map(|x| x.to_val()).map_err(ron_e),
        leak: |b| leaky(|| Self::deserialize_ron(b)),
    };
}
impl<T: Subject + SerRon + DeRon> RonS for T {}

#[macro_export]
macro_rules! entry {
    (@f bin $t:ty) => { Some(<$t as $crate::reg::BinS>::F) };
    (@f json $t:ty) => { Some(<$t as $crate::reg::JsonS>::F) };
    (@f ron $t:ty) => { Some(<$t as $crate::reg::RonS>::F) };
    ($t:ty; $($f:ident)*) => {{
        #[allow(unused_mut)]
        let mut e = $crate::reg::Entry {
            name: stringify!($t), ty: <$t as $crate::val::Subject>::ty, size: core::mem::size_of::<$t>(),
            bin: None, json: None, ron: None,
        };
        $( e.$f = $crate::entry!(@f $f $t); )*
        e
    }};
}
