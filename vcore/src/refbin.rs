//! Independent implementation of the documented binary layout.
use crate::val::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mark {
    Len,
    Tag,
    Variant,
    Nanos,
    Text,
}
pub fn encode(v: &Val, ty: TyRef, out: &mut Vec<u8>) {
    encode_marked(v, ty, out, &mut vec![])
}
/// Also says where the interesting parts are.
pub fn encode_marked(v: &Val, ty: TyRef, out: &mut Vec<u8>, m: &mut Vec<(usize, Mark)>) {
    let len = |n: usize, out: &mut Vec<u8>, m: &mut Vec<(usize, Mark)>| {
        m.push((out.len(), Mark::Len));
        out.extend((n as u64).to_le_bytes())
    };
    match (ty, v) {
        (Ty::Unit, Val::Unit) => {}
        (Ty::Bool, Val::Bool(b)) => out.push(*b as u8),
        (Ty::U(bits), Val::U(x)) => out.extend(&x.to_le_bytes()[..*bits as usize / 8]),
        (Ty::I(bits), Val::I(x)) => out.extend(&x.to_le_bytes()[..*bits as usize / 8]),
        (Ty::F32, Val::F32(x)) => out.extend(x.to_le_bytes()),
        (Ty::F64, Val::F64(x)) => out.extend(x.to_le_bytes()),
        (Ty::Str, Val::Str(s)) => {
            len(s.len(), out, m);
            m.push((out.len(), Mark::Text));
            out.extend(s.as_bytes())
        }
        (Ty::Dur, Val::Dur(s, n)) => {
            out.extend(s.to_le_bytes());
            m.push((out.len(), Mark::Nanos));
            out.extend(n.to_le_bytes())
        }
        (Ty::Time, Val::Time(None)) => {
            m.push((out.len(), Mark::Tag));
            out.push(0)
        },
        (Ty::Time, Val::Time(Some((s, n)))) => {
            m.push((out.len(), Mark::Tag));
            out.push(1);
            out.extend(s.to_le_bytes());
            m.push((out.len(), Mark::Nanos));
            out.extend(n.to_le_bytes())
        }
        (Ty::Opt(_), Val::Opt(None)) => {
            m.push((out.len(), Mark::Tag));
            out.push(0)
        },
        (Ty::Opt(t), Val::Opt(Some(x))) => {
            m.push((out.len(), Mark::Tag));
            out.push(1);
            encode_marked(x, t, out, m)
        }
        (Ty::Seq(t), Val::Seq(x)) | (Ty::Set(_, t), Val::Set(x)) => {
            len(x.len(), out, m);
            x.iter().for_each(|x| encode_marked(x, t, out, m))
        }
        (Ty::Arr(_, t), Val::Arr(x)) => x.iter().for_each(|x| encode_marked(x, t, out, m)),
        (Ty::Tup(ts), Val::Tup(x)) => x.iter().zip(ts.iter()).for_each(|(x, t)| encode_marked(x, t, out, m)),
        (Ty::Map(_, k, t), Val::Map(x)) => {
            len(x.len(), out, m);
            for (a, b) in x {
                encode_marked(a, k, out, m);
                encode_marked(b, t, out, m)
            }
        }
        (Ty::Struct(d), Val::Rec(x)) => {
            for (x, f) in x.iter().zip(d.fields) {
                if !skipped(f, Fmt::Bin, d.kind, false) {
                    encode_marked(x, (f.ty)(), out, m)
                }
            }
        }
        (Ty::Enum(d), Val::Enum(i, x)) => {
            m.push((out.len(), Mark::Variant));
            out.extend((*i as u16).to_le_bytes());
            for (x, f) in x.iter().zip(d.variants[*i].fields) {
                encode_marked(x, (f.ty)(), out, m)
            }
        }
        _ => panic!("harness: shape {:?}", v),
    }
}

/// Strict decoder: what the bytes mean, or why they mean nothing.
pub fn decode(d: &[u8], o: &mut usize, ty: TyRef) -> Result<Val, String> {
    fn take<'a>(d: &'a [u8], o: &mut usize, n: usize) -> Result<&'a [u8], String> {
        if d.len() - *o < n {
            return Err(format!("short at {}", *o));
        }
        *o += n;
        Ok(&d[*o - n..*o])
    }
    fn num(d: &[u8], o: &mut usize, n: usize) -> Result<u128, String> {
        let mut b = [0u8; 16];
        b[..n].copy_from_slice(take(d, o, n)?);
        Ok(u128::from_le_bytes(b))
    }
    let len = |o: &mut usize| -> Result<usize, String> {
        let n = num(d, o, 8)? as u64;
        usize::try_from(n).map_err(|_| "len".to_string())
    };
    let many = |o: &mut usize, n: usize, t: TyRef| -> Result<Vec<Val>, String> {
        let mut x = vec![];
        for _ in 0..n {
            if x.len() > 300_000 && x.len() > d.len() {
                return Err("too many empty elements".into());
            }
            x.push(decode(d, o, t)?)
        }
        Ok(x)
    };
    let flag = |o: &mut usize| -> Result<bool, String> {
        match take(d, o, 1)?[0] {
            0 => Ok(false),
            1 => Ok(true),
            x => Err(format!("bad tag {}", x)),
        }
    };
    Ok(match ty {
        Ty::Unit => Val::Unit,
        Ty::Bool => Val::Bool(flag(o)?),
        Ty::U(bits) => Val::U(num(d, o, *bits as usize / 8)?),
        Ty::I(bits) => {
            let u = num(d, o, *bits as usize / 8)?;
            let sh = 128 - *bits as u32;
            Val::I(((u << sh) as i128) >> sh)
        }
        Ty::F32 => Val::F32(num(d, o, 4)? as u32),
        Ty::F64 => Val::F64(num(d, o, 8)? as u64),
        Ty::Str => {
            let n = len(o)?;
            Val::Str(String::from_utf8(take(d, o, n)?.to_vec()).map_err(|_| "utf8".to_string())?)
        }
        Ty::Dur | Ty::Time => {
            if matches!(ty, Ty::Time) && !flag(o)? {
                return Ok(Val::Time(None));
            }
            let s = num(d, o, 8)? as u64;
            let n = num(d, o, 4)? as u32;
            if n > 1_000_000_000 {
                return Err("nanos".into());
            }
            let (s, n) = if n == 1_000_000_000 { (s.checked_add(1).ok_or("secs")?, 0) } else { (s, n) };
            if matches!(ty, Ty::Time) {
                if s > i64::MAX as u64 {
                    return Err("time".into());
                }
                Val::Time(Some((s, n)))
            } else {
                Val::Dur(s, n)
            }
        }
        Ty::Opt(t) => Val::Opt(if flag(o)? { Some(Box::new(decode(d, o, t)?)) } else { None }),
        Ty::Seq(t) => {
            let n = len(o)?;
            Val::Seq(many(o, n, t)?)
        }
        Ty::Set(_, t) => {
            let n = len(o)?;
            let mut x = many(o, n, t)?;
            x.sort();
            x.dedup();
            Val::Set(x)
        }
        Ty::Arr(n, t) => Val::Arr(many(o, *n, t)?),
        Ty::Tup(ts) => Val::Tup(ts.iter().map(|t| decode(d, o, t)).collect::<Result<_, _>>()?),
        Ty::Map(_, k, t) => {
            let n = len(o)?;
            let mut m = std::collections::BTreeMap::new();
            for i in 0..n {
                if i > 300_000 && i > d.len() {
                    return Err("too many empty elements".into());
                }
                let a = decode(d, o, k)?;
                let b = decode(d, o, t)?;
                m.insert(a, b);
            }
            Val::Map(m.into_iter().collect())
        }
        Ty::Struct(def) => {
            let mut x = vec![];
            for f in def.fields {
                x.push(if skipped(f, Fmt::Bin, def.kind, false) {
                    (f.type_default.expect("harness: type_default"))()
                } else {
                    decode(d, o, (f.ty)())?
                })
            }
            Val::Rec(x)
        }
        Ty::Enum(def) => {
            let i = num(d, o, 2)? as usize;
            let v = def.variants.get(i).ok_or_else(|| format!("variant {}", i))?;
            let mut x = vec![];
            for f in v.fields {
                x.push(decode(d, o, (f.ty)())?)
            }
            Val::Enum(i, x)
        }
    })
}
