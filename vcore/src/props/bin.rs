use super::Reg;
use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::refbin::{self, Mark};
use crate::reg::Entry;
use crate::val::*;

fn entries(reg: Reg) -> Vec<Entry> {
    reg.iter().filter(|e| e.bin.is_some()).copied().collect()
}
fn key(e: &Entry, b: &[u8]) -> Vec<u8> {
    let mut k = e.name.as_bytes().to_vec();
    k.push(0);
    k.extend(b);
    k
}
fn hex(b: &[u8]) -> String {
    let n = b.len().min(400);
    format!("{:02x?}{}", &b[..n], if n < b.len() { format!(" ({} bytes)", b.len()) } else { String::new() })
}
pub fn roundtrip(reg: Reg) -> Vec<Sub> {
    let es = entries(reg);
    let es2 = es.clone();
    let es3: Vec<Entry> = es.iter().filter(|e| gen::can_grow((e.ty)())).copied().collect();
    let one = move |src: &mut Src, ctx: &mut Ctx, e: &Entry, large: bool| -> R {
            let f = e.bin.unwrap();
            let ty = (e.ty)();
            let v = if large { gen::large(src, ty, gen::BIN) } else { gen::value(src, ty, gen::BIN) };
            let want = normalize(&v, ty, Fmt::Bin);
            let b = (f.ser)(&v);
            ctx.eval();
            if !gen::boring(&v) {
                ctx.nontrivial(&key(e, &b))
            }
            ctx.sample(|| format!("{} = {} -> {} bytes", e.name, v.show(), b.len()));
            match (f.de)(&b) {
                Ok(x) => ensure!(x == want, "{}: {} came back from binary as {}", e.name, want.show(), x.show()),
                Err(x) => return fail(format!("{}: {} does not decode from its own binary: {:?}", e.name, v.show(), x)),
            }
            // in the middle of a larger buffer
            let pre = src.below(40);
            let post = src.below(20);
            let mut buf: Vec<u8> = (0..pre).map(|_| src.below(256) as u8).collect();
            buf.extend(&b);
            buf.extend((0..post).map(|_| src.below(256) as u8));
            let mut o = pre;
            match (f.de_at)(&mut o, &buf) {
                Ok(x) => {
                    ensure!(x == want, "{}: {} decoded at offset {} as {}", e.name, want.show(), pre, x.show());
                    ensure!(o == pre + b.len(), "{}: decoding {} bytes at offset {} moved the offset to {}", e.name, b.len(), pre, o);
                }
                Err(x) => return fail(format!("{}: {} at offset {} does not decode: {:?}", e.name, v.show(), pre, x)),
            }
            Ok(())
    };
    let mut v = vec![
        Sub::new("roundtrip", 60_000, 2_000_000, move |src, ctx| {
            let e = *src.pick(&es);
            one(src, ctx, &e, false)
        }),
        Sub::new("concat", 12_000, 400_000, move |src, ctx| {
            let n = src.range(2, 6);
            let mut buf = vec![];
            let mut vs = vec![];
            for _ in 0..n {
                let e = src.pick(&es2);
                let v = gen::small(src, (e.ty)(), gen::BIN);
                buf.extend((e.bin.unwrap().ser)(&v));
                vs.push((e, v, buf.len()));
            }
            ctx.eval();
            ctx.nontrivial(&buf);
            let mut o = 0;
            for (i, (e, v, end)) in vs.iter().enumerate() {
                let want = normalize(v, (e.ty)(), Fmt::Bin);
                match (e.bin.unwrap().de_at)(&mut o, &buf) {
                    Ok(x) => ensure!(
                        x == want && o == *end,
                        "value {} of {} ({}): wrote {} ending at {}, read {} ending at {}",
                        i,
                        n,
                        e.name,
                        want.show(),
                        end,
                        x.show(),
                        o
                    ),
                    Err(x) => return fail(format!("value {} of {} ({}): {:?}", i, n, e.name, x)),
                }
            }
            Ok(())
        }),
    ];
    if !es3.is_empty() {
        v.push(Sub::new("large", 15, 4_000, move |src, ctx| {
            let e = *src.pick(&es3);
            one(src, ctx, &e, true)
        }));
    }
    v
}

pub fn layout(reg: Reg) -> Vec<Sub> {
    let es = entries(reg);
    let es2 = es.clone();
    let es3: Vec<Entry> = es.iter().filter(|e| gen::can_grow((e.ty)())).copied().collect();
    let one = move |src: &mut Src, ctx: &mut Ctx, e: &Entry, large: bool| -> R {
            let ty = (e.ty)();
            let cfg = gen::Cfg { finite: false, pre_epoch: true };
            let v = if large { gen::large(src, ty, cfg) } else { gen::value(src, ty, cfg) };
            let b = (e.bin.unwrap().ser)(&v);
            ctx.eval();
            if !gen::boring(&v) {
                ctx.nontrivial(&key(e, &b))
            }
            ctx.sample(|| format!("{} = {} -> {:02x?}", e.name, v.show(), &b[..b.len().min(40)]));
            if has_hash(ty) {
                // order is the container's own: read it back strictly
                let mut o = 0;
                let x = refbin::decode(&b, &mut o, ty);
                let want = normalize_keep(&v, ty, Fmt::Bin);
                match x {
                    Ok(x) => ensure!(x == want && o == b.len(), "{}: wrote {} as bytes that mean {} ({} of {} bytes)", e.name, want.show(), x.show(), o, b.len()),
                    Err(x) => return fail(format!("{}: wrote {} as bytes that mean nothing: {} {}", e.name, v.show(), x, hex(&b))),
                }
            } else {
                let mut want = vec![];
                refbin::encode(&v, ty, &mut want);
                ensure!(b == want, "{}: {} written as {}, the layout says {}", e.name, v.show(), hex(&b), hex(&want));
            }
            Ok(())
    };
    let mut v = vec![
        Sub::new("writes", 60_000, 2_000_000, move |src, ctx| {
            let e = *src.pick(&es);
            one(src, ctx, &e, false)
        }),
        Sub::new("reads", 40_000, 1_500_000, move |src, ctx| {
            let e = src.pick(&es2);
            let ty = (e.ty)();
            let v = gen::value(src, ty, gen::Cfg { finite: false, pre_epoch: true });
            let mut b = vec![];
            refbin::encode(&v, ty, &mut b);
            let want = normalize(&v, ty, Fmt::Bin);
            ctx.eval();
            if !gen::boring(&v) {
                ctx.nontrivial(&key(e, &b))
            }
            match (e.bin.unwrap().de)(&b) {
                Ok(x) => ensure!(x == want, "{}: {:02x?} means {}, read as {}", e.name, b, want.show(), x.show()),
                Err(x) => return fail(format!("{}: {:02x?} means {}, rejected: {:?}", e.name, b, want.show(), x)),
            }
            Ok(())
        }),
    ];
    if !es3.is_empty() {
        v.push(Sub::new("large", 15, 4_000, move |src, ctx| {
            let e = *src.pick(&es3);
            one(src, ctx, &e, true)
        }));
    }
    v
}
const LENS: &[u64] = &[
    0,
    1,
    2,
    255,
    256,
    65_535,
    65_536,
    1 << 20,
    1 << 24,
    1 << 28,
    (1 << 31) - 1,
    1 << 31,
    u32::MAX as u64,
    1 << 32,
    (1 << 32) + 1,
    1 << 40,
    1 << 48,
    1 << 56,
    1 << 60,
    (1 << 61) - 1,
    1 << 61,
    1 << 62,
    i64::MAX as u64,
    1 << 63,
    (1 << 63) + 1,
    u64::MAX - 8,
    u64::MAX - 7,
    u64::MAX - 1,
    u64::MAX,
];
pub fn bounded(ty: TyRef) -> bool {
    let mut ok = true;
    visit_types(ty, &mut |t| match t {
        Ty::Seq(x) | Ty::Set(_, x) => ok &= !may_be_empty_bin(x),
        Ty::Map(_, k, v) => ok &= !may_be_empty_bin(k) || !may_be_empty_bin(v),
        _ => {}
    });
    ok
}
pub fn mem_cap(e: &Entry, len: usize) -> usize {
    (1 << 20) + len * (4096 + 16 * e.size)
}
/// Decodes untrusted bytes and compares with the strict decoder.
fn judge(e: &Entry, d: &[u8], start: usize, how: &str) -> R {
    let ty = (e.ty)();
    let f = e.bin.unwrap();
    let mut o = start;
    let (got, _) = capped(mem_cap(e, d.len()), || (f.de_at)(&mut o, d));
    let what = || format!("{} from {:02x?} at {} ({})", e.name, &d[..d.len().min(80)], start, how);
    if start > d.len() {
        ensure!(got.is_err() || may_be_empty_bin(ty), "{}: decoded beyond the end as {:?}", what(), got.map(|v| v.show()));
        return Ok(());
    }
    if got.is_ok() {
        ensure!(o <= d.len(), "{}: offset ended at {} of {}", what(), o, d.len());
        ensure!(o >= start, "{}: offset went back to {}", what(), o);
    }
    let mut p = start;
    match (refbin::decode(d, &mut p, ty), got) {
        (Ok(x), Ok(y)) => {
            let x = normalize(&x, ty, Fmt::Bin);
            ensure!(x == y && p == o, "{}: means {} ending at {}, read as {} ending at {}", what(), x.show(), p, y.show(), o);
        }
        (Ok(x), Err(y)) => return fail(format!("{}: means {}, rejected: {:?}", what(), x.show(), y)),
        (Err(m), Ok(y)) if !m.starts_with("bad tag") => return fail(format!("{}: is invalid ({}), read as {}", what(), m, y.show())),
        _ => {}
    }
    Ok(())
}
pub fn hostile(reg: Reg) -> Vec<Sub> {
    let es: Vec<Entry> = entries(reg).into_iter().filter(|e| bounded((e.ty)())).collect();
    let (e1, e2, e3, e4, e5) = (es.clone(), es.clone(), es.clone(), es.clone(), es);
    vec![
        Sub::new("cut", 8_000, 250_000, move |src, ctx| {
            let e = src.pick(&e1);
            let f = e.bin.unwrap();
            let v = gen::value(src, (e.ty)(), gen::BIN);
            let b = (f.ser)(&v);
            let n = b.len();
            let cuts: Vec<usize> = if n <= 40 { (0..n).collect() } else { (0..40).map(|_| src.below(n)).collect() };
            for c in cuts {
                ctx.eval();
                ctx.nontrivial(&key(e, &b[..c]));
                let mut o = 0;
                let (r, _) = capped(mem_cap(e, c), || (f.de_at)(&mut o, &b[..c]));
                if let Ok(x) = r {
                    return fail(format!("{}: {} cut to {} of {} bytes decodes as {}", e.name, v.show(), c, n, x.show()));
                }
            }
            Ok(())
        }),
        Sub::new("field", 40_000, 1_500_000, move |src, ctx| {
            // one meaningful part replaced
            let e = src.pick(&e2);
            let ty = (e.ty)();
            let v = gen::value(src, ty, gen::BIN);
            let (mut b, mut m) = (vec![], vec![]);
            refbin::encode_marked(&v, ty, &mut b, &mut m);
            if m.is_empty() {
                return Ok(());
            }
            let (at, k) = *src.pick(&m);
            match k {
                Mark::Len => {
                    let old = u64::from_le_bytes(b[at..at + 8].try_into().unwrap());
                    let new = match src.below(5) {
                        0 => old.wrapping_add(1 + src.below(3) as u64),
                        1 => old.wrapping_sub(1 + src.below(3) as u64),
                        2 => (b.len() - at - 8) as u64 + src.below(3) as u64,
                        3 => ((usize::MAX - at - 8) as u64).wrapping_add(src.below(17) as u64),
                        _ => *src.pick(LENS),
                    };
                    b[at..at + 8].copy_from_slice(&new.to_le_bytes())
                }
                Mark::Tag => b[at] = src.below(256) as u8,
                Mark::Variant => {
                    let new = match src.below(3) {
                        0 => src.below(70000) as u16,
                        1 => u16::MAX - src.below(3) as u16,
                        _ => u16::from_le_bytes([b[at], b[at + 1]]).wrapping_add(src.below(300) as u16),
                    };
                    b[at..at + 2].copy_from_slice(&new.to_le_bytes())
                }
                Mark::Nanos => {
                    let new = *src.pick(&[999_999_999u32, 1_000_000_000, 1_000_000_001, 2_000_000_000, u32::MAX, 0]);
                    b[at..at + 4].copy_from_slice(&new.to_le_bytes());
                    if src.below(2) == 1 {
                        let s = *src.pick(&[u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MAX as u64 + 1]);
                        b[at - 8..at].copy_from_slice(&s.to_le_bytes());
                    }
                }
                Mark::Text => {
                    if at < b.len() {
                        b[at] = *src.pick(&[0xff, 0x80, 0xc0, 0xed, 0xf8, 0xfe])
                    }
                }
            }
            ctx.eval();
            ctx.nontrivial(&key(e, &b));
            ctx.label(match k {
                Mark::Len => "length prefix",
                Mark::Tag => "tag",
                Mark::Variant => "variant index",
                Mark::Nanos => "nanoseconds",
                Mark::Text => "utf-8",
            });
            ctx.sample(|| format!("{} from {:02x?} ({:?} at {} replaced)", e.name, &b[..b.len().min(40)], k, at));
            judge(e, &b, 0, "one field replaced")
        }),
        Sub::new("bytes", 40_000, 1_500_000, move |src, ctx| {
            let e = src.pick(&e3);
            let ty = (e.ty)();
            let v = gen::small(src, ty, gen::BIN);
            let mut b = vec![];
            refbin::encode(&v, ty, &mut b);
            for _ in 0..src.range(1, 4) {
                let n = b.len();
                match src.below(5) {
                    0 if n > 0 => {
                        let i = src.below(n);
                        b[i] ^= 1 << src.below(8)
                    }
                    1 if n > 0 => {
                        b.remove(src.below(n));
                    }
                    2 => b.insert(src.below(n + 1), src.below(256) as u8),
                    3 if n > 0 => {
                        let i = src.below(n);
                        b[i] = *src.pick(&[0, 1, 0x7f, 0x80, 0xff])
                    }
                    _ => b.extend((0..src.below(12)).map(|_| src.below(256) as u8)),
                }
            }
            ctx.eval();
            ctx.nontrivial(&key(e, &b));
            judge(e, &b, 0, "mutated")
        }),
        Sub::new("noise", 30_000, 1_000_000, move |src, ctx| {
            let e = src.pick(&e4);
            let n = src.below(60);
            let mut b: Vec<u8> = (0..n).map(|_| if src.chance(1, 3) { src.below(256) as u8 } else { src.below(4) as u8 }).collect();
            if src.chance(1, 2) {
                let l = *src.pick(LENS);
                let at = src.below(b.len() + 1);
                b.splice(at..at, l.to_le_bytes());
            }
            let start = if src.chance(1, 4) { src.below(b.len() + 1) } else { 0 };
            ctx.eval();
            ctx.nontrivial(&key(e, &b));
            judge(e, &b, start, "random bytes")
        }),
        Sub::new("offset", 6_000, 100_000, move |src, ctx| {
            let e = src.pick(&e5);
            let v = gen::small(src, (e.ty)(), gen::BIN);
            let b = (e.bin.unwrap().ser)(&v);
            let start = match src.below(4) {
                0 => b.len() + src.below(10),
                1 => usize::MAX - src.below(20),
                2 => isize::MAX as usize + src.below(3),
                _ => src.below(b.len() + 1),
            };
            ctx.eval();
            ctx.nontrivial(&key(e, &start.to_le_bytes()));
            judge(e, &b, start, "unusual offset")
        }),
    ]
}
