//! T01 (sighash types, versions), B01 (silent payment fields) and S03 (key providers).
use crate::c_codec::{canon_bytes, canon_of, diff};
use crate::c_combine::CombineV;
use crate::fields::*;
use crate::run::*;
use crate::util::*;
use crate::wire::*;
use bitcoin::hashes::{hash160, hmac, sha512, Hash, HashEngine};
use bitcoin::*;
use psbt_v2::{v0, v2, PsbtSighashType, Version};
use std::collections::*;
use std::fmt::Debug;
use std::str::FromStr;

// ---------------------------------------------------------------- T01

const NAMES: [(u32, &str); 7] = [
    (0, "SIGHASH_DEFAULT"),
    (1, "SIGHASH_ALL"),
    (2, "SIGHASH_NONE"),
    (3, "SIGHASH_SINGLE"),
    (0x81, "SIGHASH_ALL|SIGHASH_ANYONECANPAY"),
    (0x82, "SIGHASH_NONE|SIGHASH_ANYONECANPAY"),
    (0x83, "SIGHASH_SINGLE|SIGHASH_ANYONECANPAY"),
];

fn sighash_value(ctx: &Ctx, n: u32, deep: bool) -> Res {
    let p = PsbtSighashType::from_u32(n);
    if p.to_u32() != n {
        return Err(format!("{:#x} becomes {:#x}", n, p.to_u32()));
    }
    let tap = matches!(n, 0..=3 | 0x81..=0x83);
    let ecdsa = tap && n != 0;
    match p.ecdsa_hash_ty() {
        Ok(t) if !ecdsa || t.to_u32() != n || PsbtSighashType::from(t) != p => return Err(format!("{:#x} is ECDSA {:?}", n, t)),
        Err(e) if ecdsa => return Err(format!("{:#x}: {}", n, e)),
        Err(e) => ctx.err(&e)?,
        _ => {}
    }
    match p.taproot_hash_ty() {
        Ok(t) if !tap || t as u8 as u32 != n || PsbtSighashType::from(t) != p => return Err(format!("{:#x} is taproot {:?}", n, t)),
        Err(e) if tap => return Err(format!("{:#x}: {}", n, e)),
        Err(e) => ctx.err(&e)?,
        _ => {}
    }
    let s = p.to_string();
    match PsbtSighashType::from_str(&s) {
        Ok(q) if q == p && q.to_u32() == n => {}
        q => return Err(format!("text {:?} of {:#x} parses to {:?}", s, n, q)),
    }
    if let Some((_, name)) = NAMES.iter().find(|x| x.0 == n) {
        if s != *name || PsbtSighashType::from_str(name) != Ok(p) {
            return Err(format!("{:#x} is called {}", n, s));
        }
    }
    match (Version::try_from(n), n == 0 || n == 2) {
        (Ok(v), true) if v.to_u32() == n && u32::from(v) == n => {}
        (Err(e), false) => ctx.err(&e)?,
        (r, _) => return Err(format!("version {}: {:?}", n, r)),
    }
    if deep {
        let j = serde_json::to_string(&p).map_err(|e| e.to_string())?;
        if serde_json::from_str::<PsbtSighashType>(&j).ok() != Some(p) {
            return Err(format!("JSON {} of {:#x}", j, n));
        }
        if bincode::deserialize::<PsbtSighashType>(&bincode::serialize(&p).map_err(|e| e.to_string())?).ok() != Some(p) {
            return Err(format!("bincode of {:#x}", n));
        }
        // As a field of both versions.
        let kvp = kv(3, [], n.to_le_bytes());
        let (mut q, mut w) = <v2::Psbt as PsbtV>::base(1, 0);
        q.inputs[0].sighash_type = Some(p);
        w.i[0].push(kvp.clone());
        if v2::Psbt::deserialize(&w.bytes()).ok().as_ref() != Some(&q) || v2::Psbt::deserialize(&q.serialize()).ok() != Some(q) {
            return Err(format!("v2 field {:#x}", n));
        }
        let (mut q, mut w) = <v0::Psbt as PsbtV>::base(1, 0);
        q.inputs[0].sighash_type = Some(p);
        w.i[0].push(kvp);
        if v0::Psbt::deserialize(&w.bytes()).ok().as_ref() != Some(&q) || v0::Psbt::deserialize(&q.serialize()).ok() != Some(q) {
            return Err(format!("v0 field {:#x}", n));
        }
        // As a version number.
        let (q, mut w) = <v2::Psbt as PsbtV>::base(1, 0);
        w.g.iter_mut().find(|x| x.t == 0xfb).unwrap().v = n.to_le_bytes().to_vec();
        match (v2::Psbt::deserialize(&w.bytes()), n == 2) {
            (Ok(r), true) if r == q => {}
            (Err(e), false) => ctx.err(&e)?,
            (r, _) => return Err(format!("version field {}: {:?}", n, r)),
        }
        // On an input, and as the default of an input without a type.
        let check = |e: Result<EcdsaSighashType, String>, t: Result<TapSighashType, String>, who: &str| -> Res {
            if e.clone().ok().map(|x| x.to_u32()) != Some(n).filter(|_| ecdsa) || t.clone().ok().map(|x| x as u8 as u32) != Some(n).filter(|_| tap) {
                return Err(format!("{} input with type {:#x}: {:?} {:?}", who, n, e, t));
            }
            Ok(())
        };
        let mut i = v2::Input::new(&op(1, 1));
        i.sighash_type = Some(p);
        check(i.ecdsa_hash_ty().map_err(|e| e.to_string()), i.taproot_hash_ty().map_err(|e| e.to_string()), "v2")?;
        let mut i = v0::bitcoin::Input::default();
        i.sighash_type = Some(p);
        check(i.ecdsa_hash_ty().map_err(|e| e.to_string()), i.taproot_hash_ty().map_err(|e| e.to_string()), "v0")?;
        ctx.validated();
        ctx.steps(12);
    }
    Ok(())
}

pub fn sighash_types(ctx: &Ctx) {
    ctx.case(
        || "defaults and conversions".into(),
        |ctx| {
            use EcdsaSighashType as E;
            use TapSighashType as T;
            let i2 = v2::Input::new(&op(1, 1));
            let i0 = v0::bitcoin::Input::default();
            if i2.ecdsa_hash_ty().ok() != Some(E::All) || i0.ecdsa_hash_ty().ok() != Some(E::All) {
                return Err("default ECDSA type is not ALL".into());
            }
            if i2.taproot_hash_ty().ok() != Some(T::Default) || i0.taproot_hash_ty().ok() != Some(T::Default) {
                return Err("default taproot type is not DEFAULT".into());
            }
            for (t, n) in [(E::All, 1), (E::None, 2), (E::Single, 3), (E::AllPlusAnyoneCanPay, 0x81), (E::NonePlusAnyoneCanPay, 0x82), (E::SinglePlusAnyoneCanPay, 0x83)] {
                if PsbtSighashType::from(t).to_u32() != n || PsbtSighashType::from(t) != PsbtSighashType::from_u32(n) {
                    return Err(format!("{:?}", t));
                }
            }
            for (t, n) in [(T::Default, 0), (T::All, 1), (T::None, 2), (T::Single, 3), (T::AllPlusAnyoneCanPay, 0x81), (T::NonePlusAnyoneCanPay, 0x82), (T::SinglePlusAnyoneCanPay, 0x83)] {
                if PsbtSighashType::from(t).to_u32() != n || PsbtSighashType::from(t) != PsbtSighashType::from_u32(n) {
                    return Err(format!("{:?}", t));
                }
            }
            if psbt_v2::V0 != Version::ZERO || psbt_v2::V2 != Version::TWO || Version::ZERO.to_u32() != 0 || Version::TWO.to_u32() != 2 {
                return Err("version constants".into());
            }
            for bad in ["SIGHASH_NOTHING", "ALL|", "", "0x", "SIGHASH_ALL|SIGHASH_NONE", "0x100000000", "xyz", "0x-1", "\u{1F600}"] {
                match PsbtSighashType::from_str(bad) {
                    Ok(p) => return Err(format!("{:?} parses to {:?}", bad, p)),
                    Err(e) => ctx.err(&e)?,
                }
            }
            ctx.validated();
            Ok(())
        },
    );
    // Every value built from interesting bytes, with all conversions.
    let set: &[u8] = &[0, 1, 2, 3, 4, 0x1f, 0x40, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x84, 0xfe, 0xff];
    for a in set {
        ctx.case(
            || format!("byte patterns with low byte {:#x}", a),
            |ctx| {
                for b in set {
                    for c in set {
                        for d in set {
                            sighash_value(ctx, u32::from_le_bytes([*a, *b, *c, *d]), true)?;
                            ctx.state_h(&[a, b, c, d]);
                        }
                    }
                }
                Ok(())
            },
        );
    }
    let all = ctx.thorough && !ctx.errs;
    let blocks = if all { 1u32 << 16 } else { 32 };
    ctx.bound("values", if all { "all 2^32" } else { "0..2^21 and all of 15^4 byte patterns" });
    for k in 0..blocks {
        ctx.case(
            || format!("values from {:#x} to {:#x}", k << 16, (k << 16) | 0xffff),
            |ctx| {
                for n in 0..=0xffffu32 {
                    sighash_value(ctx, (k << 16) | n, false)?;
                }
                ctx.steps(6 << 16);
                ctx.validated();
                ctx.state_h(&k);
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------- B01

/// Candidate compressed keys (or not) of a BIP-375 map.
fn sp_keys(thorough: bool) -> Vec<(&'static str, Vec<u8>)> {
    let good = spk_(71).serialize().to_vec();
    let mut v = vec![
        ("a", good.clone()),
        ("b", spk_(72).serialize().to_vec()),
        ("none", vec![]),
        ("short", good[..32].to_vec()),
        ("long", [good.clone(), vec![0]].concat()),
        ("uncompressed", spk_(71).serialize_uncompressed().to_vec()),
    ];
    if thorough {
        let mut prefix = good.clone();
        prefix[0] = 5;
        let mut hybrid = spk_(71).serialize_uncompressed().to_vec();
        hybrid[0] = 6 + (good[0] & 1);
        v.extend([
            ("one", vec![2]),
            ("prefix", prefix),
            ("off-curve", [vec![2], vec![0xff; 32]].concat()),
            ("zeros", vec![0; 33]),
            ("hybrid", hybrid),
            ("double", [good.clone(), good].concat()),
        ]);
    }
    v
}

fn sp_bytes(ctx: &Ctx, w: &WPsbt) -> Res {
    let b = w.bytes();
    let (verdict, _) = judge(Ver::V2, &b);
    let r = v2::Psbt::deserialize(&b);
    ctx.step();
    match (verdict, r) {
        (Verdict::Accept, Err(e)) => Err(format!("rejected: {:?} {}", e, hex(&b))),
        (Verdict::Reject(why), Ok(_)) => Err(format!("accepted in spite of {}: {}", why, hex(&b))),
        (Verdict::Reject(why), Err(e)) => {
            ctx.outcome(&format!("rejected: {}", why));
            ctx.validated();
            ctx.err(&e)
        }
        (Verdict::Either(_), _) => Ok(()),
        (Verdict::Accept, Ok(p)) => {
            ctx.outcome("accepted");
            ctx.state(&b);
            let kept = |q: &v2::Psbt, who: &str| -> Res {
                ctx.validated();
                match diff(&canon_of(Ver::V2, w), &canon_bytes(Ver::V2, &q.serialize(), w.o.len())?) {
                    None => Ok(()),
                    Some(d) => Err(format!("{}: {}", who, d)),
                }
            };
            kept(&p, "serialised")?;
            // Combining with a copy of the same transaction that lacks the fields keeps them, either way round.
            let mut bare = w.clone();
            for t in [7, 8] {
                bare.g.retain(|x| x.t != t);
            }
            for m in &mut bare.i {
                m.retain(|x| !matches!(x.t, 0x1d | 0x1e));
            }
            let has_script = w.o.iter().all(|m| m.iter().any(|x| x.t == 4));
            if has_script {
                for m in &mut bare.o {
                    m.retain(|x| !matches!(x.t, 9 | 10));
                }
            }
            let q = v2::Psbt::deserialize(&bare.bytes()).map_err(|e| format!("bare copy: {:?}", e))?;
            ctx.steps(3);
            kept(&v2::Psbt::combine2(p.clone(), q.clone()).map_err(|e| format!("combine: {}", e))?, "combined")?;
            kept(&v2::Psbt::combine2(q, p).map_err(|e| format!("combine: {}", e))?, "combined the other way")
        }
    }
}

/// The same rules beside every other field, and in every one of many maps.
fn sp_beside(ctx: &Ctx) {
    // Bits: share, proof, proof of another scan key; for the map at hand, the other one and the global map.
    let put = |m: &mut WMap, t: u8, bits: u32| {
        for (b, tt, k) in [(1, t, 71u32), (2, t + 1, 71), (4, t + 1, 72)] {
            if bits & b != 0 {
                let v = if tt == t { spk_(80).serialize().to_vec() } else { vec![b as u8; 64] };
                m.push(kv(tt, spk_(k).serialize(), v));
            }
        }
    };
    let out = |m: &mut WMap, how: u32| {
        let info = [&spk_(71).serialize()[..], &spk_(72).serialize()[..]].concat();
        let n = [0, 66, 66, 66, 0, 0, 65, 67][how as usize];
        if matches!(how, 2 | 4 | 6) {
            m.retain(|p| p.t != 4);
        }
        if n > 0 {
            m.push(kv(9, [], [&info[..], &[2]].concat()[..n].to_vec()));
        }
        if matches!(how, 3 | 5 | 6) {
            m.push(kv(10, [], 7u32.to_le_bytes()));
        }
    };
    let mut all: Vec<[u32; 4]> = vec![];
    for g in [0, 1, 2, 3] {
        for i in [0, 1, 2, 3, 5] {
            for j in [0, 3] {
                all.push([g, i, j, 0]);
            }
        }
    }
    for o in 1..8 {
        all.push([0, 0, 0, o]);
        all.push([3, 0, 0, o]);
        all.push([0, 3, 0, o]);
    }
    let set = |w: &mut WPsbt, x: usize, y: usize, c: &[u32; 4]| {
        put(&mut w.g, 7, c[0]);
        put(&mut w.i[x], 0x1d, c[1]);
        if y != x {
            put(&mut w.i[y], 0x1d, c[2]);
        }
        let n = w.o.len();
        out(&mut w.o[x.min(n - 1)], c[3]);
    };
    ctx.bound("other fields", format!("every value of the table beside {} arrangements", all.len()));
    for a in <v2::Psbt as PsbtV>::atoms() {
        if a.field.starts_with("sp_") || a.field == "script_pubkey" || (a.rare && !ctx.thorough) {
            continue;
        }
        for at in 0..if a.k == K::G { 1 } else { 2 } {
            ctx.case(
                || format!("beside {}@{}", a.name, at),
                |ctx| {
                    for c in &all {
                        let mut w = build::<v2::Psbt>(2, 2, &[(at, a)]).1;
                        set(&mut w, 0, 1, c);
                        sp_bytes(ctx, &w).map_err(|e| format!("{:?}: {}", c, e))?;
                    }
                    Ok(())
                },
            );
        }
    }
    ctx.bound("long PSBTs", "300 inputs and outputs");
    for x in FAR {
        for y in FAR {
            ctx.case(
                || format!("long {} {}", x, y),
                |ctx| {
                    for c in &all {
                        let (ni, no) = if c[3] == 0 { (300, 1) } else { (300, 300) };
                        let mut w = build::<v2::Psbt>(ni, no, &[]).1;
                        set(&mut w, x, y, c);
                        sp_bytes(ctx, &w).map_err(|e| format!("{:?}: {}", c, e))?;
                    }
                    Ok(())
                },
            );
        }
    }
}

pub fn silent(ctx: &Ctx) {
    let keys = sp_keys(ctx.thorough);
    let proofs: Vec<(String, Vec<u8>)> = [0usize, 1, 32, 33, 63, 64, 65, 66, 128]
        .iter()
        .filter(|n| ctx.thorough || ![1, 32, 33, 66].contains(*n))
        .map(|n| (format!("{}b", n), (0..*n).map(|x| x as u8 ^ 0x5a).collect()))
        .collect();
    let base = <v2::Psbt as PsbtV>::base(1, 1).1;
    // One share and one proof at most, of every shape.
    let mut shares: Vec<(String, Option<Kv>)> = vec![("-".into(), None)];
    let mut prfs: Vec<(String, Option<Kv>)> = vec![("-".into(), None)];
    for (kn, k) in &keys {
        for (vn, v) in &keys {
            shares.push((format!("{}={}", kn, vn), Some(kv(7, k.clone(), v.clone()))));
        }
        for (vn, v) in &proofs {
            prfs.push((format!("{}={}", kn, vn), Some(kv(8, k.clone(), v.clone()))));
        }
    }
    ctx.bound("share and proof shapes", format!("{} x {}, global and input", shares.len(), prfs.len()));
    for global in [true, false] {
        for (sn, s) in &shares {
            for (pn, p) in &prfs {
                ctx.case(
                    || format!("pair {} share {} proof {}", if global { "global" } else { "input" }, sn, pn),
                    |ctx| {
                        let mut w = base.clone();
                        let add: Vec<Kv> = s.iter().chain(p.iter()).cloned().collect();
                        if global {
                            w.g.extend(add);
                        } else {
                            w.i[0].extend(add.into_iter().map(|x| kv(x.t + 0x16, x.kd, x.v)));
                        }
                        sp_bytes(ctx, &w)
                    },
                );
            }
        }
    }
    // Several well-formed shares and proofs: every subset of three scan keys, in global map and two inputs.
    let scan: Vec<Vec<u8>> = (71..74).map(|i| spk_(i).serialize().to_vec()).collect();
    let base2 = <v2::Psbt as PsbtV>::base(2, 1).1;
    let sub = if ctx.thorough { 64u32 } else { 16 };
    ctx.bound("well-formed sets", format!("subsets of shares and proofs of {} scan keys in the global and input maps", if ctx.thorough { 3 } else { 2 }));
    let split = |m: u32| if ctx.thorough { (m & 7, m >> 3) } else { (m & 3, m >> 2) };
    for g in 0..sub {
        for i0 in 0..sub {
            for i1 in if ctx.thorough { vec![0, 9, 1, 63] } else { vec![0, 5, 1] } {
                ctx.case(
                    || format!("sets {:x} {:x} {:x}", g, i0, i1),
                    |ctx| {
                        let mut w = base2.clone();
                        let put = |m: &mut WMap, t: u8, mask: u32| {
                            let (s, p) = split(mask);
                            for j in 0..3 {
                                if s >> j & 1 == 1 {
                                    m.push(kv(t, scan[j].clone(), spk_(80 + j as u32).serialize()));
                                }
                                if p >> j & 1 == 1 {
                                    m.push(kv(t + 1, scan[j].clone(), [j as u8 + 1; 64]));
                                }
                            }
                        };
                        put(&mut w.g, 7, g);
                        put(&mut w.i[0], 0x1d, i0);
                        put(&mut w.i[1], 0x1d, i1);
                        sp_bytes(ctx, &w)
                    },
                );
            }
        }
    }
    // Outputs: script, info of every length, label of every length.
    for script in [None, Some(0usize), Some(22), Some(34)] {
        for info in std::iter::once(None).chain((0..=if ctx.thorough { 140 } else { 70 }).map(Some)) {
            for label in [None, Some(0usize), Some(1), Some(3), Some(4), Some(5), Some(8)] {
                for key in [0usize, 1] {
                    ctx.case(
                        || format!("output script {:?} info {:?} label {:?} keydata {}", script, info, label, key),
                        |ctx| {
                            let mut w = base.clone();
                            w.o[0].retain(|x| x.t != 4);
                            if let Some(n) = script {
                                w.o[0].push(kv(4, [], vec![0x51; n]));
                            }
                            if let Some(n) = info {
                                let v = [&spk_(71).serialize()[..], &spk_(72).serialize()[..], &[7u8; 80]].concat();
                                w.o[0].push(kv(9, vec![1; key], v[..n].to_vec()));
                            }
                            if let Some(n) = label {
                                w.o[0].push(kv(10, vec![], (1..=n as u8).collect::<Vec<_>>()));
                            }
                            sp_bytes(ctx, &w)
                        },
                    );
                }
            }
        }
    }
    sp_beside(ctx);
    // Proof conversions of every length.
    #[cfg(feature = "sp")]
    for n in 0..=(if ctx.thorough { 1000usize } else { 200 }) {
        ctx.case(
            || format!("proof of {} bytes", n),
            |ctx| {
                use psbt_v2::v2::dleq::DleqProof;
                let b: Vec<u8> = (0..n).map(|x| (x * 7 + n) as u8).collect();
                let want: Option<[u8; 64]> = b.as_slice().try_into().ok();
                let h = hex(&b);
                let got: Vec<(&str, Option<DleqProof>)> = vec![
                    ("slice", DleqProof::try_from(&b[..]).ok()),
                    ("vector", DleqProof::try_from(b.clone()).ok()),
                    ("json", serde_json::from_str(&format!("\"{}\"", h)).ok()),
                    ("json upper case", serde_json::from_str(&format!("\"{}\"", h.to_uppercase())).ok()),
                    ("json value", serde_json::from_value(serde_json::Value::String(h.clone())).ok()),
                    ("bincode", bincode::deserialize(&bincode::serialize(&b).unwrap()).ok()),
                ];
                ctx.steps(6);
                if let Err(e) = DleqProof::try_from(&b[..]) {
                    ctx.err(&e)?;
                    if e.got != n || e.expected != 64 {
                        return Err(format!("error says {:?}", e));
                    }
                }
                for (how, g) in got {
                    if g.map(|p| p.0) != want {
                        return Err(format!("{}: {:?}", how, g));
                    }
                }
                if let Some(a) = want {
                    let p = DleqProof::from(a);
                    if p.as_bytes() != &a || p.as_ref() != &a[..] || p.0 != a {
                        return Err("proof bytes change".into());
                    }
                    if serde_json::to_string(&p).unwrap() != format!("\"{}\"", h) {
                        return Err("proof JSON".into());
                    }
                    if bincode::deserialize::<DleqProof>(&bincode::serialize(&p).unwrap()).ok() != Some(p) {
                        return Err("proof bincode".into());
                    }
                }
                ctx.validated();
                ctx.state(&b);
                Ok(())
            },
        );
    }
}
// ---------------------------------------------------------------- S03

/// BIP-32 private derivation, written from the BIP.
struct Node { key: secp256k1::SecretKey, chain: [u8; 32], net: NetworkKind }
fn node(x: &bip32::Xpriv) -> Node {
    Node { key: x.private_key, chain: x.chain_code.to_bytes(), net: x.network }
}
fn hmac512(key: &[u8], data: &[u8]) -> [u8; 64] {
    let mut e = hmac::HmacEngine::<sha512::Hash>::new(key);
    e.input(data);
    hmac::Hmac::<sha512::Hash>::from_engine(e).to_byte_array()
}
fn derive(n: &Node, path: &[u32]) -> Node {
    let (mut key, mut chain) = (n.key, n.chain);
    for i in path {
        let mut data = if i >> 31 == 1 {
            [&[0u8][..], &key.secret_bytes()].concat()
        } else {
            secp256k1::PublicKey::from_secret_key(secp(), &key).serialize().to_vec()
        };
        data.extend(i.to_be_bytes());
        let o = hmac512(&chain, &data);
        key = key.add_tweak(&secp256k1::Scalar::from_be_bytes(o[..32].try_into().unwrap()).unwrap()).unwrap();
        chain = o[32..].try_into().unwrap();
    }
    Node { key, chain, net: n.net }
}
fn fingerprint(n: &Node) -> [u8; 4] {
    let p = secp256k1::PublicKey::from_secret_key(secp(), &n.key).serialize();
    hash160::Hash::hash(&p).to_byte_array()[..4].try_into().unwrap()
}

/// This version of rust-bitcoin gives `Xpriv` neither an order nor a hash, so sets of them can only be filled
/// through a wrapper of the same layout. The sets are only iterated over afterwards.
#[repr(transparent)]
#[derive(Clone, Copy, PartialEq, Eq)]
struct W(bip32::Xpriv);
impl PartialOrd for W {
    fn partial_cmp(&self, o: &W) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) }
}
impl Ord for W {
    fn cmp(&self, o: &W) -> std::cmp::Ordering { self.0.encode().cmp(&o.0.encode()) }
}
impl std::hash::Hash for W {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.encode().hash(h) }
}
fn btree(x: impl Iterator<Item = bip32::Xpriv>) -> BTreeSet<bip32::Xpriv> {
    unsafe { std::mem::transmute(x.map(W).collect::<BTreeSet<W>>()) }
}
fn hashed(x: impl Iterator<Item = bip32::Xpriv>) -> HashSet<bip32::Xpriv> {
    unsafe { std::mem::transmute(x.map(W).collect::<HashSet<W>>()) }
}

#[derive(Clone, Debug)]
enum Req { Key(PublicKey), Origin([u8; 4], Vec<u32>) }

/// One provider, asked through the traits of both versions.
trait Both: v0::bitcoin::GetKey + v2::GetKey {
    fn ask(&self, r: &Req) -> [Result<Option<PrivateKey>, String>; 2];
}
impl<T> Both for T
where
    T: v0::bitcoin::GetKey + v2::GetKey,
    <T as v0::bitcoin::GetKey>::Error: Debug,
    <T as v2::GetKey>::Error: Debug,
{
    fn ask(&self, r: &Req) -> [Result<Option<PrivateKey>, String>; 2] {
        let (a, b) = match r {
            Req::Key(k) => (v0::bitcoin::KeyRequest::Pubkey(*k), v2::KeyRequest::Pubkey(*k)),
            Req::Origin(f, p) => (v0::bitcoin::KeyRequest::Bip32(ks(*f, p)), v2::KeyRequest::Bip32(ks(*f, p))),
        };
        [
            v0::bitcoin::GetKey::get_key(self, a, secp()).map_err(|e| format!("{:?}", e)),
            v2::GetKey::get_key(self, b, secp()).map_err(|e| format!("{:?}", e)),
        ]
    }
}

/// `want`: the only key that may be given, or none.
fn answers(ctx: &Ctx, who: &str, r: &Req, got: [Result<Option<PrivateKey>, String>; 2], want: Option<PrivateKey>) -> Res {
    for (v, g) in ["v0", "v2"].iter().zip(got) {
        ctx.step();
        ctx.validated();
        let ok = match (&g, &want) {
            (Ok(Some(a)), Some(b)) => a == b,
            // A kind of request that a provider does not support counts as no answer.
            (Ok(None), None) => true,
            (Err(e), None) => e == "NotSupported" || e.starts_with("Bip32"),
            _ => false,
        };
        if !ok {
            return Err(format!("{} {} asked {:?}: {:?}, expected {:?}", v, who, r, g.map(|k| k.map(|k| k.to_wif())), want.map(|k| k.to_wif())));
        }
        // A provider must support its own kind of request, answering none rather than failing.
        let own = matches!((who.contains("Map"), r), (true, Req::Key(_)) | (false, Req::Origin(..)));
        if let (Err(e), true) = (&g, own) {
            return Err(format!("{} {} asked {:?} fails: {}", v, who, r, e));
        }
    }
    ctx.outcome(if want.is_some() { "answered" } else { "no answer" });
    Ok(())
}

pub fn providers(ctx: &Ctx) {
    // Extended keys: three masters (one of another network), a child, and a hardened grandchild.
    let mut xs: Vec<bip32::Xpriv> = vec![xpriv(1), xpriv(2)];
    xs.push(bip32::Xpriv::new_master(Network::Testnet, &sha(b"mc testnet")).unwrap());
    xs.push(xs[0].derive_priv(secp(), &path(&[7])).unwrap());
    xs.push(xs[1].derive_priv(secp(), &path(&[0x8000_0000, 1])).unwrap());
    let vals = [0u32, 1, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_ffff];
    let depth = if ctx.thorough { 4 } else { 3 };
    let mut paths: Vec<Vec<u32>> = vec![vec![]];
    let mut last = paths.clone();
    for _ in 0..depth {
        last = last.iter().flat_map(|p| vals.iter().map(move |v| [p.clone(), vec![*v]].concat())).collect();
        paths.extend(last.clone());
    }
    paths.push(vec![0x8000_0054, 0x8000_0000, 0x8000_0000, 0, 5, 9, 1, 2]);
    ctx.bound("paths", format!("{} (all of {} child numbers to depth {}, and one of depth 8)", paths.len(), vals.len(), depth));
    ctx.bound("providers", "5 extended keys, every subset of them as BTreeSet and HashSet; every subset of 5 keys as BTreeMap and HashMap");
    let ns: Vec<Node> = xs.iter().map(node).collect();
    let fps: Vec<[u8; 4]> = ns.iter().map(fingerprint).collect();
    let mut asked: Vec<([u8; 4], Option<usize>)> = fps.iter().enumerate().map(|(i, f)| (*f, Some(i))).collect();
    // Near misses: a parent fingerprint, a flipped bit, reversed bytes, zero.
    let mut flip = fps[0];
    flip[3] ^= 1;
    let mut rev = fps[0];
    rev.reverse();
    let parent: [u8; 4] = xs[4].parent_fingerprint.to_bytes();
    asked.extend([(flip, None), (rev, None), (parent, None), ([0; 4], None)]);
    let priv_of = |n: &Node| PrivateKey { compressed: true, network: n.net, inner: n.key };

    for (fp, who) in &asked {
        for p in &paths {
            if p.len() == depth && p.len() > 3 && who.is_some() && !matches!(who, Some(0)) {
                continue;
            }
            ctx.case(
                || format!("origin {} {:?}", hex(fp), p),
                |ctx| {
                    let r = Req::Origin(*fp, p.clone());
                    let want = |mask: u32| who.filter(|i| mask >> i & 1 == 1).map(|i| priv_of(&derive(&ns[i], p)));
                    let w_all = want(!0);
                    for i in 0..xs.len() {
                        let w = if *who == Some(i) { w_all } else { None };
                        answers(ctx, "Xpriv", &r, xs[i].ask(&r), w)?;
                    }
                    let masks: Vec<u32> = if p.len() <= 1 || ctx.thorough { (0..1 << xs.len()).collect() } else { vec![0, 1, 6, 9, 24, 31] };
                    for mask in masks {
                        let w = w_all.filter(|_| who.map(|i| mask >> i & 1 == 1).unwrap_or(false));
                        let members = || (0..xs.len()).filter(|i| mask >> i & 1 == 1).map(|i| xs[i]);
                        answers(ctx, "BTreeSet", &r, btree(members()).ask(&r), w)?;
                        answers(ctx, "HashSet", &r, hashed(members()).ask(&r), w)?;
                        ctx.state_h(&(fp, p, mask));
                    }
                    let m: BTreeMap<_, _> = [(pk(1), privk(1))].into();
                    answers(ctx, "BTreeMap", &r, m.ask(&r), None)
                },
            );
        }
    }
    // Key maps: compressed and uncompressed forms are different requests; values are given as stored.
    let keys: Vec<(PublicKey, PrivateKey)> = vec![
        (pk(1), privk(1)),
        (pk(2), privk(2)),
        (upk(1), PrivateKey::new_uncompressed(sk(1), Network::Bitcoin)),
        (upk(3), PrivateKey::new_uncompressed(sk(3), Network::Testnet)),
        (pk(4), privk(4)),
    ];
    let neg = PublicKey::new(spk_(1).negate(secp()));
    let requests: Vec<PublicKey> = keys.iter().map(|k| k.0).chain([pk(3), upk(2), pk(9), neg]).collect();
    for q in &requests {
        for mask in 0u32..1 << keys.len() {
            ctx.case(
                || format!("public key {} of map {:05b}", q, mask),
                |ctx| {
                    let r = Req::Key(*q);
                    let members = || keys.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, k)| *k);
                    let want = members().find(|(k, _)| k == q).map(|(_, s)| s);
                    answers(ctx, "BTreeMap", &r, members().collect::<BTreeMap<_, _>>().ask(&r), want)?;
                    answers(ctx, "HashMap", &r, members().collect::<HashMap<_, _>>().ask(&r), want)?;
                    answers(ctx, "Xpriv", &r, xs[0].ask(&r), None)?;
                    answers(ctx, "BTreeSet", &r, btree(xs.iter().cloned()).ask(&r), None)?;
                    ctx.state_h(&(q, mask));
                    Ok(())
                },
            );
        }
    }
}
