//! The types of the probe: a crate that has no std itself.
#![no_std]
#![allow(unused)]
extern crate alloc;

#[cfg(any(feature = "binary", feature = "json", feature = "ron"))]
pub mod types {
    use alloc::boxed::Box;
    use alloc::collections::{BTreeMap, BTreeSet, LinkedList};
    use alloc::string::String;
    use alloc::vec::Vec;
    use core::time::Duration;

    macro_rules! ser {
        ($($item:tt)*) => {
            #[cfg_attr(feature = "binary", derive(nanoserde::SerBin, nanoserde::DeBin))]
            #[cfg_attr(feature = "json", derive(nanoserde::SerJson, nanoserde::DeJson))]
            #[cfg_attr(feature = "ron", derive(nanoserde::SerRon, nanoserde::DeRon))]
            #[derive(Debug, Clone, PartialEq)]
            $($item)*
        };
    }
    macro_rules! ser_no_ron {
        ($($item:tt)*) => {
            #[cfg_attr(feature = "binary", derive(nanoserde::SerBin, nanoserde::DeBin))]
            #[cfg_attr(feature = "json", derive(nanoserde::SerJson, nanoserde::DeJson))]
            #[derive(Debug, Clone, PartialEq)]
            $($item)*
        };
    }
    macro_rules! bin {
        ($($item:tt)*) => {
            #[cfg_attr(feature = "binary", derive(nanoserde::SerBin, nanoserde::DeBin))]
            #[derive(Debug, Clone, PartialEq)]
            $($item)*
        };
    }
    macro_rules! text {
        ($($item:tt)*) => {
            #[cfg_attr(feature = "json", derive(nanoserde::SerJson, nanoserde::DeJson))]
            #[cfg_attr(feature = "ron", derive(nanoserde::SerRon, nanoserde::DeRon))]
            #[derive(Debug, Clone, PartialEq)]
            $($item)*
        };
    }
    ser! { pub struct Plain { pub a: u8, pub b: i64, pub c: f32, pub d: f64, pub e: String, pub f: bool, pub g: usize } }
    ser! { pub struct Nested { pub a: Plain, pub b: Vec<Plain>, pub c: Option<Box<Nested>>, pub d: BTreeMap<String, Plain>, pub e: [Option<u16>; 2], pub f: (u8, String, i32) } }
    ser! { pub struct Tuple(pub u8, pub String, pub Vec<i16>); }
    ser! { pub struct One(pub Vec<u32>); }
    ser! { pub enum Unit { A, B, C } }
    ser! {
        pub enum Mixed {
            A, B(u8), C(String, f64), D { x: i32, y: Option<String> }, E(Box<Mixed>), F { m: BTreeMap<String, Mixed> }, G([u8; 3]), H(Duration),
        }
    }
    ser! { pub struct Generic<T> where T: Clone { pub t: T, pub v: Vec<T>, pub o: Option<T> } }
    ser! { pub struct Konst<const N: usize> { pub a: [u8; N], pub b: [[i8; N]; 2] } }
    ser! { pub struct Empty {} }
    ser! {
        pub struct Times { pub a: Duration, pub b: Option<Duration>, pub c: Vec<Duration> }
    }
    ser! { pub struct Colls { pub a: LinkedList<u8>, pub b: BTreeSet<String>, pub c: BTreeMap<u16, bool>, pub d: Vec<Vec<i8>>, pub e: (u8, u8), pub f: (u8, u8, u8, u8), pub g: () } }
    bin! { pub struct Wide { pub a: u128, pub b: i128, pub c: Option<Option<u8>>, #[cfg_attr(feature = "binary", nserde(skip))] pub d: u8 } }
    ser_no_ron! { pub struct Marker; }
    #[cfg(any(feature = "json", feature = "ron"))]
    text! {
        pub struct Attrs {
            #[nserde(rename = "renamed_a")] pub a: u8,
            #[nserde(default)] pub b: Vec<u8>,
            #[nserde(default = "7")] pub c: u8,
            #[nserde(default_with = "made")] pub d: String,
            #[nserde(skip)] pub e: i16,
            pub f: Option<u8>,
            #[nserde(rename = "g_", default = 1.5)] pub g: f64,
            #[nserde(default = "hey")] pub h: String,
        }
    }
    #[cfg(any(feature = "json", feature = "ron"))]
    fn made() -> String {
        "made".into()
    }
    #[cfg(any(feature = "json", feature = "ron"))]
    text! { #[nserde(default)] #[derive(Default)] pub struct AllDefault { pub a: u8, pub b: String, pub c: Option<u8>, pub d: Vec<u8> } }
    #[cfg(feature = "json")]
    #[derive(nanoserde::SerJson, nanoserde::DeJson, Debug, Clone, PartialEq)]
    #[nserde(transparent)]
    pub struct Thin(pub Plain);
    #[cfg(feature = "json")]
    #[derive(nanoserde::SerJson, nanoserde::DeJson, Debug, Clone, PartialEq)]
    #[nserde(serialize_none_as_null)]
    pub struct Nulls { pub a: Option<u8>, pub b: Option<String>, #[nserde(rename = "ключ\"")] pub c: u8 }
    #[cfg(feature = "json")]
    #[derive(nanoserde::SerJson, nanoserde::DeJson, Debug, Clone, PartialEq)]
    pub enum Named { #[nserde(rename = "a b")] A, #[nserde(rename = "\\")] B(u8), #[nserde(rename = "é")] C { #[nserde(rename = "1")] x: u8 } }
}
