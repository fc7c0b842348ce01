//! Compositions of the std types.
use crate::entry;
use crate::reg::Entry;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList};
use std::hash::{BuildHasherDefault, DefaultHasher};
use std::time::{Duration, SystemTime};
type OtherHash = BuildHasherDefault<DefaultHasher>;

pub fn all() -> Vec<Entry> {
    vec![
        entry!((); bin json ron),
        entry!(bool; bin json ron),
        entry!(u8; bin json ron),
        entry!(u16; bin json ron),
        entry!(u32; bin json ron),
        entry!(u64; bin json ron),
        entry!(u128; bin),
        entry!(usize; bin json ron),
        entry!(i8; bin json ron),
        entry!(i16; bin json ron),
        entry!(i32; bin json ron),
        entry!(i64; bin json ron),
        entry!(i128; bin),
        entry!(f32; bin json ron),
        entry!(f64; bin json ron),
        entry!(String; bin json ron),
        entry!(Duration; bin json ron),
        entry!(SystemTime; bin json ron),
        entry!(Box<i16>; bin json ron),
        entry!(Option<u32>; bin json ron),
        entry!(Option<String>; bin json ron),
        entry!(Option<Option<bool>>; bin),
        entry!(Option<()>; bin),
        entry!(Option<Vec<Option<i8>>>; bin json ron),
        entry!(Vec<u8>; bin json ron),
        entry!(Vec<i64>; bin json ron),
        entry!(Vec<f32>; bin json ron),
        entry!(Vec<f64>; bin json ron),
        entry!(Vec<bool>; bin json ron),
        entry!(Vec<String>; bin json ron),
        entry!(Vec<()>; json ron),
        entry!(Vec<Option<u8>>; bin json ron),
        entry!(Vec<Option<String>>; bin json ron),
        entry!(Vec<Vec<u16>>; bin json ron),
        entry!(Vec<Vec<Vec<String>>>; bin json ron),
        entry!(LinkedList<u32>; bin json ron),
        entry!(LinkedList<Option<String>>; bin json ron),
        entry!(LinkedList<Vec<i8>>; bin json ron),
        entry!(BTreeSet<i32>; bin json ron),
        entry!(BTreeSet<String>; bin json ron),
        entry!(BTreeSet<(u8, String)>; bin json ron),
        entry!(HashSet<u64>; bin json ron),
        entry!(HashSet<String>; bin json ron),
        entry!(BTreeMap<String, i32>; bin json ron),
        entry!(BTreeMap<String, Vec<Option<f64>>>; bin json ron),
        entry!(BTreeMap<u16, String>; bin json ron),
        entry!(BTreeMap<(u8, bool), BTreeMap<String, u8>>; bin json ron),
        entry!(BTreeMap<String, BTreeMap<String, [u8; 2]>>; bin json ron),
        entry!(HashMap<String, u64>; bin json ron),
        entry!(HashMap<String, HashMap<String, Option<bool>>>; bin json ron),
        entry!(HashMap<i32, (f32, String)>; bin json ron),
        entry!(HashMap<String, Vec<u8>, OtherHash>; json),
        entry!((u8, i16); bin json ron),
        entry!((String, f64, bool); bin json ron),
        entry!((Option<u8>, Vec<u8>, String, i64); bin json ron),
        entry!(((u8, (i8, bool)), [(u16, String); 2]); bin json ron),
        entry!((Option<String>, Option<u8>); bin json ron),
        entry!([u8; 0]; bin json ron),
        entry!([u32; 1]; bin json ron),
        entry!([i16; 2]; bin json ron),
        entry!([String; 3]; bin json ron),
        entry!([f32; 4]; bin json ron),
        entry!([Option<u8>; 7]; bin json ron),
        entry!([[u8; 3]; 2]; bin json ron),
        entry!([[[i8; 2]; 0]; 3]; bin json ron),
        entry!([Vec<String>; 2]; bin json ron),
        entry!([u8; 16]; bin json ron),
        entry!([u8; 31]; bin json ron),
        entry!([u8; 32]; bin json ron),
        entry!([u16; 33]; bin json ron),
        entry!([bool; 64]; bin json ron),
        entry!([u8; 100]; bin json ron),
        entry!(Vec<[u8; 4]>; bin json ron),
        entry!(Vec<(String, Option<Box<i32>>)>; bin json ron),
        entry!(Vec<Duration>; bin json ron),
        entry!(Vec<Option<Duration>>; bin json ron),
        entry!((SystemTime, Duration); bin json ron),
        entry!(BTreeMap<String, Duration>; bin json ron),
        entry!(Vec<BTreeMap<String, Vec<BTreeSet<u8>>>>; bin json ron),
        entry!(Option<Box<[Option<String>; 2]>>; bin json ron),
        entry!(Vec<u128>; bin),
        entry!((i128, usize); bin),
        entry!(Vec<SystemTime>; bin json ron),
        entry!(Option<[u64; 40]>; bin json ron),
        entry!(Vec<Option<[u64; 40]>>; bin json ron),
        entry!(HashSet<Vec<u8>>; bin json ron),
        entry!(BTreeSet<Option<bool>>; bin json ron),
        entry!(BTreeMap<Option<u8>, Option<u8>>; bin json ron),
    ]
}
