//! C08: raw keys and proprietary keys are two views of the same bytes.
use crate::run::*;
use crate::util::*;
use bitcoin::consensus::{encode, Decodable, Encodable};
use psbt_v2::{raw as r2, v0::bitcoin::raw as r0};
use std::fmt::Debug;

/// A subtype as an application would define it.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Sub(u8);
impl From<u8> for Sub {
    fn from(n: u8) -> Sub { Sub(n) }
}
impl From<Sub> for u8 {
    fn from(s: Sub) -> u8 { s.0 }
}

/// The documented form of the data of a proprietary key.
fn data(prefix: &[u8], sub: u8, key: &[u8]) -> Vec<u8> { [&cs(prefix.len() as u64)[..], prefix, &[sub], key].concat() }

/// Splits it; `None` if it has no such form.
fn split(b: &[u8]) -> Option<(Vec<u8>, u8, Vec<u8>)> {
    let (n, l) = read_cs(b)?;
    let rest = &b[l..];
    let n = usize::try_from(n).ok()?;
    if rest.len() < n.checked_add(1)? {
        return None;
    }
    Some((rest[..n].to_vec(), rest[n], rest[n + 1..].to_vec()))
}

/// A reader which ends, or a writer which is full, after so many bytes.
struct Full(usize);
impl bitcoin::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> bitcoin::io::Result<usize> {
        if self.0 == 0 {
            return Err(bitcoin::io::Error::from(bitcoin::io::ErrorKind::Other));
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> bitcoin::io::Result<()> { Ok(()) }
}

fn formats<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + Debug>(t: &T) -> Res {
    let j = serde_json::to_string(t).map_err(|e| e.to_string())?;
    if serde_json::from_str::<T>(&j).ok().as_ref() != Some(t) {
        return Err(format!("JSON form {} of {:?}", j, t));
    }
    let b = bincode::serialize(t).map_err(|e| e.to_string())?;
    if bincode::deserialize::<T>(&b).ok().as_ref() != Some(t) {
        return Err(format!("compact form {} of {:?}", hex(&b), t));
    }
    Ok(())
}

macro_rules! version {
    ($m:ident, $r:ident, $who:literal) => {
        mod $m {
            use super::*;

            /// One proprietary key, given by its parts.
            pub fn parts(ctx: &Ctx, prefix: &[u8], sub: u8, key: &[u8], deep: bool) -> Res {
                let p: $r::ProprietaryKey = $r::ProprietaryKey { prefix: prefix.to_vec(), subtype: sub, key: key.to_vec() };
                let want = data(prefix, sub, key);
                let k = p.to_key();
                if k.type_value != 0xfc || k.key != want {
                    return Err(format!("raw key of {:?} is {:?}", p, k));
                }
                match $r::ProprietaryKey::<u8>::try_from(k.clone()) {
                    Ok(q) if q == p => {}
                    q => return Err(format!("{:?} of {:?}", q, p)),
                }
                let s = $r::ProprietaryKey { prefix: prefix.to_vec(), subtype: Sub(sub), key: key.to_vec() };
                if s.to_key() != k || $r::ProprietaryKey::<Sub>::try_from(k.clone()).ok().as_ref() != Some(&s) {
                    return Err(format!("own subtype of {:?}", p));
                }
                let mut out = vec![];
                let n = p.consensus_encode(&mut out).map_err(|e| e.to_string())?;
                if out != want || n != want.len() {
                    return Err(format!("encoding of {:?}: said {} bytes, wrote {}", p, n, hex(&out)));
                }
                if encode::deserialize::<$r::ProprietaryKey<u8>>(&want).ok().as_ref() != Some(&p) {
                    return Err(format!("decoding of {:?}", p));
                }
                if deep {
                    let head = want.len() - key.len();
                    let cuts: Vec<usize> = (0..want.len()).filter(|i| want.len() < 80 || *i < 6 || i.abs_diff(head) < 3 || i + 3 > want.len()).collect();
                    for i in cuts {
                        if p.consensus_encode(&mut Full(i)).is_ok() {
                            return Err(format!("{:?} fits a writer with {} bytes", p, i));
                        }
                        let cut = <$r::ProprietaryKey<u8>>::consensus_decode(&mut &want[..i]);
                        match (cut, split(&want[..i])) {
                            (Ok(q), Some((a, b, c))) if q.prefix == a && q.subtype == b && q.key == c => {}
                            (Err(e), None) => ctx.err(&e)?,
                            (r, _) => return Err(format!("first {} bytes of {:?} decode to {:?}", i, p, r)),
                        }
                        ctx.steps(2);
                    }
                    formats(&p)?;
                    formats(&k)?;
                    formats(&s.to_key())?;
                }
                ctx.steps(6);
                ctx.validated();
                Ok(())
            }

            /// One raw key.
            pub fn raw(ctx: &Ctx, t: u8, b: &[u8], deep: bool) -> Res {
                let k = $r::Key { type_value: t, key: b.to_vec() };
                let want = split(b).filter(|_| t == 0xfc);
                match ($r::ProprietaryKey::<u8>::try_from(k.clone()), &want) {
                    (Ok(p), Some((a, s, c))) if &p.prefix == a && p.subtype == *s && &p.key == c => {
                        if p.to_key() != k {
                            return Err(format!("{:?} comes back as {:?}", k, p.to_key()));
                        }
                    }
                    (Err(e), None) => ctx.err(&e)?,
                    (r, _) => return Err(format!("{:?} as a proprietary key: {:?}", k, r)),
                }
                if deep {
                    let s = k.to_string();
                    if s != format!("type: {:#x}, key: {}", t, hex(b)) {
                        return Err(format!("text of {:?} is {:?}", k, s));
                    }
                    formats(&k)?;
                }
                ctx.steps(2);
                Ok(())
            }
        }
    };
}
version!(two, r2, "v2");
version!(zero, r0, "v0");

pub fn raw_keys(ctx: &Ctx) {
    let all = ctx.thorough && !ctx.errs;
    let fill = |n: usize, seed: u8| (0..n).map(|i| (i as u8).wrapping_mul(7).wrapping_add(seed)).collect::<Vec<u8>>();
    let lens: Vec<usize> = if all { (0..=260).chain([0xfffe, 0xffff, 0x10000]).collect() } else { vec![0, 1, 2, 3, 32, 33, 252, 253, 254, 255, 256, 0xffff, 0x10000] };
    let kls: Vec<usize> = if all { (0..=66).chain([252, 253, 255, 256, 511, 512, 1022, 1023, 1024]).collect() } else { vec![0, 1, 2, 33, 252, 253, 1023, 1024] };
    ctx.bound("prefix lengths", format!("{:?}", if all { "0..=260, 65534..=65536".into() } else { format!("{:?}", lens) }));
    ctx.bound("key data lengths", if all { "0..=66 and eight boundary lengths up to 1024".into() } else { format!("{:?}", kls) });
    for n in &lens {
        ctx.case(
            || format!("proprietary keys with a prefix of {} bytes", n),
            |ctx| {
                for l in &kls {
                    for sub in 0..=255u8 {
                        if (*n > 300 || *l > 66) && !matches!(sub, 0 | 1 | 0x7f | 0x80 | 0xfc..=0xff) {
                            continue;
                        }
                        let deep = matches!(sub, 0 | 0xfc | 0xff) && *n < 1000;
                        for seed in [0u8, 0xfd] {
                            two::parts(ctx, &fill(*n, seed), sub, &fill(*l, !seed), deep)?;
                            zero::parts(ctx, &fill(*n, seed), sub, &fill(*l, !seed), deep)?;
                        }
                        ctx.state_h(&(n, l, sub));
                    }
                }
                Ok(())
            },
        );
    }
    // Every raw key with little data, of every type.
    for t in 0..=255u8 {
        ctx.case(
            || format!("raw keys of type {:#x}", t),
            |ctx| {
                let mut go = |b: &[u8]| -> Res {
                    let deep = b.len() < 2 || (t == 0xfc && b[1] % 16 == 0);
                    two::raw(ctx, t, b, deep)?;
                    zero::raw(ctx, t, b, deep)
                };
                go(&[])?;
                for a in 0..=255u8 {
                    go(&[a])?;
                    if t == 0xfc || all {
                        for b in 0..=255u8 {
                            go(&[a, b])?;
                        }
                    }
                }
                ctx.validated();
                ctx.state_h(&t);
                Ok(())
            },
        );
    }
    // Every first byte with boundary data behind it: long, missing, oversized and non-minimal prefixes.
    let tails: Vec<Vec<u8>> = {
        let set: &[u8] = if all { &[0, 1, 2, 3, 4, 0x20, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff] } else { &[0, 1, 2, 0x80, 0xfd, 0xff] };
        let mut v: Vec<Vec<u8>> = vec![vec![]];
        let mut last = v.clone();
        for _ in 0..if all { 4 } else { 3 } {
            last = last.iter().flat_map(|p| set.iter().map(move |b| [&p[..], &[*b]].concat())).collect();
            v.extend(last.clone());
        }
        for n in [4usize, 5, 8, 9, 30, 251, 252, 253, 254, 255, 256, 258, 300] {
            for h in [&[][..], &[0xfd, 0][..], &[0xfc, 0], &[0, 1], &[0xff, 0xff], &[0xfd, 0, 0, 0], &[0, 0, 1, 0], &[0xff; 4], &[0xff; 8], &[0, 0, 0, 0, 1, 0, 0, 0]] {
                v.push([h, &fill(n, 3)[..]].concat());
            }
        }
        v
    };
    ctx.bound("data behind each first byte", tails.len());
    for a in 0..=255u8 {
        ctx.case(
            || format!("proprietary data starting with {:#x}", a),
            |ctx| {
                for t in &tails {
                    let b = [&[a][..], t].concat();
                    two::raw(ctx, 0xfc, &b, t.len() < 3)?;
                    zero::raw(ctx, 0xfc, &b, t.len() < 3)?;
                    two::raw(ctx, 0xfb, &b, false)?;
                    zero::raw(ctx, 0xfd, &b, false)?;
                    ctx.state(&b);
                }
                ctx.validated();
                Ok(())
            },
        );
    }
    // The pair type of version 2.
    ctx.case(
        || "pairs".into(),
        |ctx| {
            for t in 0..=255u8 {
                for kl in [0usize, 1, 33] {
                    for vl in [0usize, 1, 2, 252, 253, 70_000] {
                        formats(&r2::Pair { key: r2::Key { type_value: t, key: fill(kl, t) }, value: fill(vl, !t) })?;
                        ctx.step();
                    }
                }
            }
            ctx.validated();
            Ok(())
        },
    );
}
