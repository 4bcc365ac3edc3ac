//! E02: what an error says about the data is true: positions, keys, lengths, values and scripts named in
//! an error are those of the element that is wrong. Exactly one thing is wrong in each case (or the
//! wrong ones are all known), so whatever an error names can be compared. Which variant reports a cause
//! is not part of the property: errors that name nothing pass, and are counted as such.
use crate::fields::*;
use crate::run::*;
use crate::spend::*;
use crate::util::*;
use crate::wire::*;
use bitcoin::sighash::{EcdsaSighashType, SighashCache};
use bitcoin::*;
use psbt_v2::v0::bitcoin as b0;
use psbt_v2::v0::miniscript::{Error as M0, InputError as I0, PsbtExt};
use psbt_v2::v2::{self, global, input, output};
use psbt_v2::{v0, FeeError, FundingUtxoError};
use std::collections::*;
use std::fmt::Debug;

fn eq<T: PartialEq + Debug>(what: &str, got: &T, want: &T) -> Res {
    if got == want {
        return Ok(());
    }
    let cut = |s: String| if s.len() > 300 { format!("{}…", s.chars().take(300).collect::<String>()) } else { s };
    Err(format!("the error names {} {}, but it is {}", what, cut(format!("{:?}", got)), cut(format!("{:?}", want))))
}
/// One of two values, in either order.
fn both<T: PartialEq + Debug>(what: &str, a: &T, b: &T, x: &T, y: &T) -> Res {
    if (a == x && b == y) || (a == y && b == x) {
        return Ok(());
    }
    Err(format!("the error names {} {:?} and {:?}, but they are {:?} and {:?}", what, a, b, x, y))
}

/// Every position of short PSBTs, and positions around the widths of a long one.
fn spots() -> Vec<(usize, usize)> {
    let mut v: Vec<_> = (1..=3).flat_map(|n| (0..n).map(move |i| (n, i))).collect();
    v.extend(FAR.iter().map(|i| (300, *i)));
    v
}

// ---------------------------------------------------------------- decoding

/// What a decoding error names.
#[derive(Default, Debug)]
struct Said {
    map: Option<K>,
    key: Option<(u8, Vec<u8>)>,
    key_len: Option<(usize, usize)>,
    value_len: Option<(usize, usize)>,
    version: Option<u32>,
    excluded: Option<u8>,
    preimage: Option<String>,
}
fn said2(e: &v2::DeserializeError) -> Said {
    let mut s = Said::default();
    match e {
        v2::DeserializeError::DecodeGlobal(e) => {
            s.map = Some(K::G);
            if let global::DecodeError::InsertPair(e) = e {
                use global::InsertPairError as P;
                match e {
                    P::DuplicateKey(k) | P::InvalidKeyDataEmpty(k) | P::InvalidKeyDataNotEmpty(k) => s.key = Some((k.type_value, k.key.clone())),
                    P::KeyWrongLength(a, b) => s.key_len = Some((*a, *b)),
                    P::ValueWrongLength(a, b) => s.value_len = Some((*a, *b)),
                    P::WrongVersion(v) => s.version = Some(*v),
                    P::ExcludedKey { key_type_value } => s.excluded = Some(*key_type_value),
                    _ => {}
                }
            }
        }
        v2::DeserializeError::DecodeInput(e) => {
            s.map = Some(K::I);
            if let input::DecodeError::InsertPair(e) = e {
                use input::InsertPairError as P;
                match e {
                    P::DuplicateKey(k) | P::InvalidKeyDataEmpty(k) | P::InvalidKeyDataNotEmpty(k) => s.key = Some((k.type_value, k.key.clone())),
                    P::KeyWrongLength(a, b) => s.key_len = Some((*a, *b)),
                    P::ValueWrongLength(a, b) => s.value_len = Some((*a, *b)),
                    P::HashPreimage(e) => s.preimage = Some(e.to_string()),
                    _ => {}
                }
            }
        }
        v2::DeserializeError::DecodeOutput(e) => {
            s.map = Some(K::O);
            if let output::DecodeError::InsertPair(e) = e {
                use output::InsertPairError as P;
                match e {
                    P::DuplicateKey(k) | P::InvalidKeyDataEmpty(k) | P::InvalidKeyDataNotEmpty(k) => s.key = Some((k.type_value, k.key.clone())),
                    P::ValueWrongLength(a, b) => s.value_len = Some((*a, *b)),
                    _ => {}
                }
            }
        }
        _ => {}
    }
    s
}
fn said0(e: &b0::Error) -> Said {
    let mut s = Said::default();
    match e {
        b0::Error::DuplicateKey(k) | b0::Error::InvalidKey(k) => s.key = Some((k.type_value, k.key.clone())),
        b0::Error::ExcludedKey { key_type_value } => s.excluded = Some(*key_type_value),
        b0::Error::InvalidPreimageHashPair { preimage, hash, .. } => s.preimage = Some(format!("{} {}", hex(preimage), hex(hash))),
        _ => {}
    }
    s
}

/// One pair of map `ix` is wrong: `p`, where `was` was in its place. Everything the error names is `p`'s.
fn compare(ctx: &Ctx, s: &Said, k: K, p: &Kv, was: Option<&Kv>) -> Res {
    ctx.validated();
    let mut named = false;
    if let Some(m) = s.map {
        named = true;
        eq("a map of kind", &m, &k)?;
    }
    if let Some(key) = &s.key {
        named = true;
        eq("the key", key, &(p.t, p.kd.clone()))?;
    }
    if let Some((got, want)) = s.key_len {
        named = true;
        eq("the key length", &got, &p.kd.len())?;
        if got == want {
            return Err(format!("the error says that a key of {} bytes has the wrong length because {} bytes were expected", got, want));
        }
        if let Some(w) = was {
            eq("the expected key length", &want, &w.kd.len())?;
        }
    }
    if let Some((got, want)) = s.value_len {
        named = true;
        eq("the value length", &got, &p.v.len())?;
        if got == want {
            return Err(format!("the error says that a value of {} bytes has the wrong length because {} bytes were expected", got, want));
        }
        if let Some(w) = was {
            eq("the expected value length", &want, &w.v.len())?;
        }
    }
    if let Some(x) = s.excluded {
        named = true;
        eq("the excluded type", &x, &p.t)?;
    }
    if let Some(v) = s.version {
        named = true;
        eq("the version", &v.to_le_bytes().to_vec(), &p.v)?;
    }
    if let Some(t) = &s.preimage {
        named = true;
        if !t.contains(&hex(&p.v)) || !t.contains(&hex(&p.kd)) {
            return Err(format!("the error about preimage {} of hash {} is \"{}\"", hex(&p.v), hex(&p.kd), t));
        }
    }
    ctx.outcome(if named { "named" } else { "names nothing" });
    Ok(())
}

fn decoding<P: PsbtV>(ctx: &Ctx, said: fn(&P::E) -> Said) {
    let far = if ctx.thorough { vec![0, 1, 127, 253, 255, 256, 299] } else { vec![255, 299] };
    for (ai, a) in P::atoms().iter().enumerate() {
        if a.rare {
            continue;
        }
        let mut at: Vec<(usize, usize, usize)> = match a.k {
            K::G => vec![(1, 1, 0), (2, 2, 0)],
            K::I => (1..=3).flat_map(|n| (0..n).map(move |i| (n, 1, i))).collect(),
            K::O => (1..=3).flat_map(|n| (0..n).map(move |i| (1, n, i))).collect(),
        };
        match a.k {
            K::G => {}
            K::I => at.extend(far.iter().map(|i| (300, 1, *i))),
            K::O => at.extend(far.iter().map(|i| (1, 300, *i))),
        }
        for (n_in, n_out, ix) in at {
            ctx.case(
                || format!("decode {:?} {} {} {} at {}", P::VER, a.name, n_in, n_out, ix),
                |ctx| {
                    let _ = ai;
                    let (_, w) = build::<P>(n_in, n_out, &complete(&[(ix, a)]));
                    let m = match a.k {
                        K::G => 0,
                        K::I => 1 + ix,
                        K::O => 1 + n_in + ix,
                    };
                    let mut wrong: Vec<(Kv, bool)> = vec![(a.kv.clone(), true)];
                    let mut push = |p: Kv| wrong.push((p, false));
                    for b in [0u8, 2, 0xff] {
                        let mut p = a.kv.clone();
                        p.kd.push(b);
                        push(p);
                        let mut p = a.kv.clone();
                        p.v.push(b);
                        push(p);
                    }
                    for n in [0, 1, 31, 32, 33, 65] {
                        for (kd, v) in [(true, false), (false, true)] {
                            let mut p = a.kv.clone();
                            if kd {
                                p.kd.truncate(n.min(p.kd.len().saturating_sub(1)));
                            }
                            if v {
                                p.v.truncate(n.min(p.v.len().saturating_sub(1)));
                            }
                            push(p);
                        }
                    }
                    // Same lengths, other bytes.
                    for b in [0u8, 0xff] {
                        let mut p = a.kv.clone();
                        p.kd.iter_mut().for_each(|x| *x = b);
                        push(p);
                        let mut p = a.kv.clone();
                        p.v.iter_mut().for_each(|x| *x = b);
                        push(p);
                    }
                    for (p, again) in wrong {
                        if !again && p == a.kv {
                            continue;
                        }
                        let mut w = w.clone();
                        let map = w.map_mut(m);
                        if again {
                            map.push(p.clone());
                        } else {
                            *map.iter_mut().find(|x| x.t == a.kv.t && x.kd == a.kv.kd).unwrap() = p.clone();
                        }
                        let bytes = w.bytes();
                        // Removing the pair's meaning may break a rule about other pairs too.
                        let (verdict, _) = judge(P::VER, &bytes);
                        ctx.step();
                        match P::de(&bytes) {
                            Ok(_) => {}
                            Err(e) => {
                                ctx.err(&e)?;
                                let s = said(&e);
                                let was = if again { None } else { Some(&a.kv) };
                                // A pair which is not wrong by itself leaves some other pair alone or twice.
                                if !again && matches!(pair_v(P::VER, a.k, &p), V::Ok | V::Any(_)) {
                                    if let Some(m) = s.map {
                                        eq("a map of kind", &m, &a.k)?;
                                    }
                                    continue;
                                }
                                compare(ctx, &s, a.k, &p, was.filter(|w| w.kd.len() != p.kd.len() || w.v.len() != p.v.len()))
                                    .map_err(|x| format!("{} (pair {:?}, error {:?}, {:?})", x, p, e, verdict))?;
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // Types a version excludes, and foreign versions.
    for t in 0..=255u8 {
        for k in [K::G, K::I, K::O] {
            ctx.case(
                || format!("decode {:?} type {} in {:?}", P::VER, t, k),
                |ctx| {
                    for ix in 0..2 {
                        for p in [kv(t, [], []), kv(t, [], [1, 2, 3, 4]), kv(t, [7; 33], [9; 5])] {
                            let (_, mut w) = P::base(2, 2);
                            let m = match k {
                                K::G => 0,
                                K::I => 1 + ix,
                                K::O => 3 + ix,
                            };
                            if w.map_mut(m).iter().any(|x| x.t == t) {
                                continue;
                            }
                            w.map_mut(m).push(p.clone());
                            ctx.step();
                            if let Err(e) = P::de(&w.bytes()) {
                                ctx.err(&e)?;
                                compare(ctx, &said(&e), k, &p, None).map_err(|x| format!("{} (pair {:?}, error {:?})", x, p, e))?;
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    for v in [0u32, 1, 2, 3, 255, 256, 257, 513, 0x0200_0000, u32::MAX] {
        ctx.case(
            || format!("decode {:?} version {}", P::VER, v),
            |ctx| {
                let (_, mut w) = P::base(1, 1);
                w.g.retain(|p| p.t != 0xfb);
                let p = kv(0xfb, [], v.to_le_bytes());
                w.g.push(p.clone());
                if let Err(e) = P::de(&w.bytes()) {
                    ctx.err(&e)?;
                    compare(ctx, &said(&e), K::G, &p, None)?;
                }
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------- positions

fn at2(e: &v2::IndexOutOfBoundsError, index: usize, len: usize) -> Res {
    match e {
        v2::IndexOutOfBoundsError::Inputs { index: i, length } => {
            eq("index", i, &index)?;
            eq("length", length, &len)
        }
        v2::IndexOutOfBoundsError::Count { index: i, count } => {
            eq("index", i, &index)?;
            eq("count", count, &len)
        }
        _ => Ok(()),
    }
}
fn at0(e: &b0::IndexOutOfBoundsError, index: usize, len: usize) -> Res {
    match e {
        b0::IndexOutOfBoundsError::Inputs { index: i, length } => {
            eq("index", i, &index)?;
            eq("length", length, &len)
        }
        b0::IndexOutOfBoundsError::TxInput { index: i, length } => {
            eq("index", i, &index)?;
            eq("length", length, &len)
        }
        _ => Ok(()),
    }
}

fn beyond(ctx: &Ctx) {
    for n in [0usize, 1, 2, 3, 255, 256, 300] {
        for index in [n, n + 1, n + 255, n + 256, n + 65_536, u32::MAX as usize, 1 << 32, usize::MAX] {
            ctx.case(
                || format!("beyond {} at {}", n, index),
                |ctx| {
                    let (p2, _) = <v2::Psbt as PsbtV>::base(n, 2);
                    let (p0, _) = <v0::Psbt as PsbtV>::base(n, 2);
                    let tx = p0.unsigned_tx.clone();
                    ctx.steps(10);
                    ctx.validated();
                    match v2::Updater::new(p2.clone()).map_err(|e| e.to_string())?.set_sequence(Sequence(5), index) {
                        Ok(_) => return Err("set_sequence accepted the index".into()),
                        Err(e) => {
                            ctx.err(&e)?;
                            at2(&e, index, n)?;
                        }
                    }
                    match p2.sighash_ecdsa(index, &mut SighashCache::new(&tx)) {
                        Ok(_) => return Err("v2 sighash_ecdsa accepted the index".into()),
                        Err(v2::SignError::IndexOutOfBounds(e)) => at2(&e, index, n)?,
                        Err(e) => return Err(format!("v2 sighash_ecdsa: {}", e)),
                    }
                    match p0.sighash_ecdsa(index, &mut SighashCache::new(&tx)) {
                        Ok(_) => return Err("v0 sighash_ecdsa accepted the index".into()),
                        Err(b0::SignError::IndexOutOfBounds(e)) => at0(&e, index, n)?,
                        Err(e) => return Err(format!("v0 sighash_ecdsa: {}", e)),
                    }
                    match p0.spend_utxo(index) {
                        Ok(_) => return Err("spend_utxo accepted the index".into()),
                        Err(b0::SignError::IndexOutOfBounds(e)) => at0(&e, index, n)?,
                        Err(e) => return Err(format!("spend_utxo: {}", e)),
                    }
                    match p0.sighash_msg(index, &mut SighashCache::new(&tx), None) {
                        Ok(_) => return Err("sighash_msg accepted the index".into()),
                        Err(v0::miniscript::SighashError::IndexOutOfBounds(i, l)) => {
                            eq("index", &i, &index)?;
                            eq("length", &l, &n)?;
                        }
                        Err(e) => return Err(format!("sighash_msg: {}", e)),
                    }
                    let inp = |e: &M0| match e {
                        M0::InputIdxOutofBounds { psbt_inp, index: i } => {
                            eq("index", i, &index)?;
                            eq("length", psbt_inp, &n)
                        }
                        e => Err(format!("finalize_inp: {}", e)),
                    };
                    let bad = || Err::<(), _>("finalising accepted the index".to_string());
                    match p0.clone().finalize_inp_mut(secp(), index) {
                        Ok(_) => bad()?,
                        Err(e) => inp(&e)?,
                    }
                    match p0.clone().finalize_inp_mall_mut(secp(), index) {
                        Ok(_) => bad()?,
                        Err(e) => inp(&e)?,
                    }
                    for r in [p0.clone().finalize_inp(secp(), index), p0.clone().finalize_inp_mall(secp(), index)] {
                        match r {
                            Ok(_) => bad()?,
                            Err((q, e)) => {
                                inp(&e)?;
                                if q != p0 {
                                    return Err("finalize_inp did not return the original PSBT".into());
                                }
                            }
                        }
                    }
                    let d = descriptor();
                    match p0.clone().update_input_with_descriptor(index, &d) {
                        Err(v0::miniscript::UtxoUpdateError::IndexOutOfBounds(i, l)) => {
                            eq("index", &i, &index)?;
                            eq("length", &l, &n)?;
                        }
                        r => return Err(format!("update_input_with_descriptor: {:?}", r)),
                    }
                    // The same number of outputs.
                    let (mut q0, _) = <v0::Psbt as PsbtV>::base(1, n);
                    match q0.update_output_with_descriptor(index, &d) {
                        Err(v0::miniscript::OutputUpdateError::IndexOutOfBounds(i, l)) => {
                            eq("index", &i, &index)?;
                            eq("length", &l, &n)?;
                        }
                        r => return Err(format!("update_output_with_descriptor: {:?}", r)),
                    }
                    ctx.outcome("beyond the end");
                    Ok(())
                },
            );
        }
    }
}
/// PSBTs in memory whose counts are smaller than their maps.
fn miscounted(ctx: &Ctx) {
    for n in [1usize, 2, 3, 256, 300] {
        for have in [0, 1, 2, n / 2, n - 1] {
            for index in [0, 1, have, have + 1, n - 1, n, n + 1, usize::MAX] {
                if have >= n {
                    continue;
                }
                ctx.case(
                    || format!("{} inputs counted as {} at {}", n, have, index),
                    |ctx| {
                        let (mut p2, _) = <v2::Psbt as PsbtV>::base(n, 2);
                        let (mut p0, _) = <v0::Psbt as PsbtV>::base(n, 2);
                        let tx = p0.unsigned_tx.clone();
                        p2.global.input_count = have;
                        p0.unsigned_tx.input.truncate(have);
                        ctx.steps(4);
                        ctx.validated();
                        let two = |e: &v2::IndexOutOfBoundsError| match e {
                            v2::IndexOutOfBoundsError::Count { .. } if index < have => Err(format!("blames the count: {}", e)),
                            v2::IndexOutOfBoundsError::Inputs { .. } if index < n => Err(format!("blames the inputs: {}", e)),
                            v2::IndexOutOfBoundsError::Count { .. } => at2(e, index, have),
                            _ => at2(e, index, n),
                        };
                        let zero = |e: &b0::IndexOutOfBoundsError| match e {
                            b0::IndexOutOfBoundsError::TxInput { .. } if index < have => Err(format!("blames the transaction: {}", e)),
                            b0::IndexOutOfBoundsError::Inputs { .. } if index < n => Err(format!("blames the inputs: {}", e)),
                            b0::IndexOutOfBoundsError::TxInput { .. } => at0(e, index, have),
                            _ => at0(e, index, n),
                        };
                        let beyond = index >= n;
                        match v2::Updater::new(p2.clone()).map_err(|e| e.to_string())?.set_sequence(Sequence(5), index) {
                            Ok(_) if beyond => return Err("set_sequence accepted the index".into()),
                            Ok(_) => {}
                            Err(e) => {
                                ctx.err(&e)?;
                                two(&e)?;
                            }
                        }
                        match p2.sighash_ecdsa(index, &mut SighashCache::new(&tx)) {
                            Ok(_) => return Err("v2 sighash_ecdsa without a UTXO".into()),
                            Err(v2::SignError::IndexOutOfBounds(e)) => two(&e)?,
                            Err(e) if beyond => return Err(format!("v2 sighash_ecdsa: {}", e)),
                            Err(_) => {}
                        }
                        for r in [p0.spend_utxo(index).map(|_| ()), p0.sighash_ecdsa(index, &mut SighashCache::new(&tx)).map(|_| ())] {
                            match r {
                                Ok(_) => return Err("version 0 found a UTXO".into()),
                                Err(b0::SignError::IndexOutOfBounds(e)) => {
                                    ctx.err(&e)?;
                                    zero(&e)?;
                                }
                                Err(e) if beyond => return Err(format!("version 0: {}", e)),
                                Err(_) => {}
                            }
                        }
                        ctx.outcome("counts differ");
                        Ok(())
                    },
                );
            }
        }
    }
}
fn descriptor() -> miniscript::Descriptor<miniscript::DefiniteDescriptorKey> {
    use std::str::FromStr;
    let d = miniscript::Descriptor::<miniscript::DescriptorPublicKey>::from_str(&format!("wpkh({})", pk(1))).unwrap();
    d.at_derivation_index(0).unwrap()
}

// ---------------------------------------------------------------- inputs

/// A PSBT whose inputs (all of kind `k`) are fully signed.
fn signed<I: InMap, P>(k: &Kind, n: usize, p: impl Fn(&Spend) -> P, maps: impl Fn(&mut P) -> &mut Vec<I>) -> (Spend, P) {
    let s = spend(&vec![k.spk.clone(); n], 1, 2, 0, &vec![0xffff_fffd; n]);
    let mut q = p(&s);
    for (ix, i) in maps(&mut q).iter_mut().enumerate() {
        describe(i, k);
        s.fund(i, ix, if k.segwit() { Form::Wit } else { Form::Non });
        for slot in &k.slots {
            if let Some(sig) = make_sig(k, *slot, &s.tx, ix, &s.prev, if k.schnorr() { 0 } else { 1 }) {
                add_sig(i, sig);
            }
        }
    }
    (s, q)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Flaw { NoSigs, Redeem, Witness, NoScripts, Flag(usize), Declared, NoUtxo, Vout, BadType }
const FLAWS: [Flaw; 11] = [
    Flaw::NoSigs, Flaw::Redeem, Flaw::Witness, Flaw::NoScripts, Flaw::Flag(0), Flaw::Flag(1), Flaw::Flag(2), Flaw::Declared, Flaw::NoUtxo, Flaw::Vout, Flaw::BadType,
];
const OTHER: &[u8] = &[0x51, 0x51, 0x87];

/// Makes an input wrong in one way; false where the way does not apply.
fn spoil<I: InMap>(i: &mut I, k: &Kind, f: Flaw) -> bool {
    match f {
        Flaw::NoSigs => {
            i.psigs().clear();
            *i.tap_sig() = None;
            i.tap_sigs().clear();
        }
        Flaw::Redeem => {
            if k.redeem.is_none() {
                return false;
            }
            *i.redeem() = Some(ScriptBuf::from_bytes(OTHER.to_vec()));
        }
        Flaw::Witness => {
            if k.wscript.is_none() {
                return false;
            }
            *i.wscript() = Some(ScriptBuf::from_bytes(OTHER.to_vec()));
        }
        Flaw::NoScripts => {
            if k.redeem.is_none() && k.wscript.is_none() {
                return false;
            }
            *i.redeem() = None;
            *i.wscript() = None;
        }
        Flaw::Flag(n) => {
            let Some(s) = i.psigs().values_mut().nth(n) else { return false };
            s.sighash_type = [EcdsaSighashType::None, EcdsaSighashType::SinglePlusAnyoneCanPay, EcdsaSighashType::Single][n];
        }
        Flaw::Declared => {
            if i.psigs().is_empty() {
                return false;
            }
            i.set_type(Some(3));
        }
        Flaw::NoUtxo => {
            *i.wit() = None;
            *i.non() = None;
        }
        Flaw::Vout => {
            let Some(t) = i.non() else { return false };
            t.output.clear();
        }
        Flaw::BadType => {
            if i.psigs().is_empty() {
                return false;
            }
            i.set_type(Some(0x1234));
        }
    }
    true
}

fn mismatch(required: &EcdsaSighashType, got: &EcdsaSighashType, pubkey: &PublicKey, sigs: &BTreeMap<PublicKey, ecdsa::Signature>, f: Flaw) -> Res {
    let want = if f == Flaw::Declared { EcdsaSighashType::Single } else { EcdsaSighashType::All };
    eq("required type", required, &want)?;
    eq("the found type, of the key it names,", &Some(*got), &sigs.get(pubkey).map(|s| s.sighash_type))?;
    if *got == want {
        return Err(format!("the error says that {:?} is wrong where {:?} is required", got, want));
    }
    Ok(())
}

/// The two input error types have the same variants.
macro_rules! input_error {
    ($t:ident, $e:expr, $k:expr, $sigs:expr, $f:expr) => {{
        match $e {
            $t::InvalidRedeemScript { redeem, p2sh_expected } => {
                eq("redeem script", redeem, &ScriptBuf::from_bytes(OTHER.to_vec()))?;
                eq("the P2SH script", p2sh_expected, &$k.spk)?;
            }
            $t::InvalidWitnessScript { witness_script, p2wsh_expected } => {
                eq("witness script", witness_script, &ScriptBuf::from_bytes(OTHER.to_vec()))?;
                eq("the P2WSH script", p2wsh_expected, $k.redeem.as_ref().unwrap_or(&$k.spk))?;
            }
            $t::WrongSighashFlag { required, got, pubkey } => {
                mismatch(required, got, pubkey, $sigs, $f)?;
            }
            _ => {}
        }
    }};
}

fn funding(e: &FundingUtxoError, vout: u32, len: usize) -> Res {
    match e {
        FundingUtxoError::OutOfBounds { vout: v, len: l } => {
            eq("output index", v, &(vout as usize))?;
            eq("number of outputs", l, &len)
        }
        _ => Ok(()),
    }
}

fn finalising(ctx: &Ctx) {
    use v2::InputError as I2;
    let names = ["pkh(A)", "wpkh(A)", "sh(wpkh(A))", "sh(multi(2,A,B,C))", "wsh(multi(2,A,B,C))", "sh(wsh(multi(1,A,B)))", "tr(A)", "tr(A,{pk(B),pk(C)})"];
    for name in names {
        let k = kind(name);
        for (n, at) in spots() {
            if n == 300 && !(name == "wpkh(A)" || (ctx.thorough && matches!(name, "pkh(A)" | "tr(A)"))) {
                continue;
            }
            for f in FLAWS {
                if n == 300 && !ctx.thorough && !matches!(f, Flaw::NoSigs | Flaw::Flag(_)) {
                    continue;
                }
                // Alone, and with every second wrong input.
                for also in 0..n.min(4) {
                    if also > 0 && n == 300 && !ctx.thorough {
                        continue;
                    }
                    let also = if n == 300 { also * 99 } else { also };
                    ctx.case(
                        || format!("finalise {} {:?} at {} of {} and {}", name, f, at, n, also),
                        |ctx| {
                            let bad: BTreeSet<usize> = [at, also].into_iter().filter(|x| *x == at || also > 0).collect();
                            // Version 2.
                            let (s, mut p) = signed(&k, n, |s| s.v2(), |p| &mut p.inputs);
                            for b in &bad {
                                if !spoil(&mut p.inputs[*b], &k, f) {
                                    return Ok(());
                                }
                            }
                            let one = |i: usize| -> Res {
                                if bad.contains(&i) {
                                    return Ok(());
                                }
                                Err(format!("the error names input {}, wrong are {:?}", i, bad))
                            };
                            ctx.step();
                            ctx.validated();
                            let sigs = p.inputs[at].partial_sigs.clone();
                            // Which of the inputs have their spent output.
                            let lost: Vec<usize> = p.iter_funding_utxos().enumerate().filter(|x| x.1.is_err()).map(|x| x.0).collect();
                            let want: Vec<usize> = if matches!(f, Flaw::NoUtxo | Flaw::Vout) { bad.iter().cloned().collect() } else { vec![] };
                            if lost != want {
                                return Err(format!("iter_funding_utxos fails for {:?}, wrong are {:?}", lost, want));
                            }
                            // The first wrong input is the one whose funding is reported.
                            let vout = |x: usize| p.inputs[x].spent_output_index;
                            match p.fee() {
                                Err(FeeError::FundingUtxo(e)) if !bad.iter().any(|b| funding(&e, vout(*b), 0).is_ok()) => funding(&e, vout(at), 0)?,
                                _ => {}
                            }
                            match v2::Finalizer::new(p.clone()) {
                                Err(e) => {
                                    ctx.err(&e)?;
                                    use v2::PartialSigsSighashTypeError as T;
                                    let e = format_err(&e);
                                    match e {
                                        Fe::Type(T::NonStandardInputSighashType { input_index, .. }) | Fe::Type(T::NonStandardPartialSigsSighashType { input_index, .. }) => one(*input_index)?,
                                        Fe::Type(T::WrongSighashFlag { input_index, got, required, pubkey }) => {
                                            one(*input_index)?;
                                            mismatch(required, got, pubkey, &sigs, f)?;
                                        }
                                        Fe::Fund(e) => {
                                            if !bad.iter().any(|b| funding(e, vout(*b), 0).is_ok()) {
                                                funding(e, vout(at), 0)?;
                                            }
                                        }
                                        Fe::Other => {}
                                    }
                                    ctx.outcome("v2 refused");
                                }
                                Ok(z) => match z.finalize(secp()) {
                                    Ok(_) => return Err(format!("v2 finalises with {:?}", f)),
                                    Err(e) => {
                                        ctx.err(&e)?;
                                        match &e {
                                            v2::FinalizeError::FinalizeInput { input_index, error } => {
                                                one(*input_index)?;
                                                if let v2::FinalizeInputError::Final(e) = error {
                                                    input_error!(I2, e, k, &sigs, f);
                                                }
                                            }
                                            v2::FinalizeError::InterpreterCheck(e) => checked(e, &bad)?,
                                        }
                                        ctx.outcome("v2 not finalised");
                                    }
                                },
                            }
                            // Version 0.
                            let (_, mut p) = signed(&k, n, |s| s.v0(), |p| &mut p.inputs);
                            for b in &bad {
                                spoil(&mut p.inputs[*b], &k, f);
                            }
                            let _ = s;
                            if k.schnorr() && matches!(f, Flaw::NoUtxo | Flaw::Vout) && n > 1 {
                                return Ok(());
                            }
                            let named = |e: &M0| -> Result<Option<usize>, String> {
                                Ok(match e {
                                    M0::InputError(e, i) => {
                                        one(*i)?;
                                        input_error!(I0, e, k, &p.inputs[*i].partial_sigs, f);
                                        Some(*i)
                                    }
                                    M0::InputIdxOutofBounds { .. } => return Err("in range".into()),
                                    M0::WrongInputCount { .. } => return Err("the counts agree".into()),
                                })
                            };
                            let undecided = matches!(f, Flaw::Flag(_) | Flaw::Declared | Flaw::BadType);
                            // Version 0 finalises an input only when it knows what all inputs spend, and names the one it does not know.
                            let shared = matches!(f, Flaw::NoUtxo | Flaw::Vout);
                            for mall in [false, true] {
                                let mut q = p.clone();
                                let r = if mall { q.finalize_mall_mut(secp()) } else { q.finalize_mut(secp()) };
                                ctx.step();
                                match r {
                                    Ok(_) if undecided => {}
                                    Ok(_) => return Err(format!("v0 finalises with {:?}", f)),
                                    Err(v) => {
                                        let mut seen = vec![];
                                        for e in &v {
                                            ctx.err(e)?;
                                            // An error about all inputs at once may come several times.
                                            seen.extend(named(e)?);
                                        }
                                        let set: BTreeSet<usize> = seen.iter().cloned().collect();
                                        if !undecided && (set != bad || (!shared && seen.len() != bad.len())) {
                                            return Err(format!("wrong are {:?}, the errors name {:?}", bad, seen));
                                        }
                                    }
                                }
                                for i in 0..n.min(3) {
                                    let r = if mall { p.clone().finalize_inp_mall(secp(), i) } else { p.clone().finalize_inp(secp(), i) };
                                    match r {
                                        Ok(_) if !undecided && bad.contains(&i) => return Err(format!("input {} finalises with {:?}", i, f)),
                                        Ok(_) => {}
                                        Err((q, e)) => {
                                            if q != p {
                                                return Err("finalize_inp did not return the original PSBT".into());
                                            }
                                            if let Some(j) = named(&e)? {
                                                if !undecided && !shared {
                                                    eq("input", &j, &i)?;
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                            ctx.outcome("v0 not finalised");
                            Ok(())
                        },
                    );
                }
            }
        }
    }
}
/// The finaliser's error type is not exported by name.
enum Fe<'a> { Type(&'a v2::PartialSigsSighashTypeError), Fund(&'a FundingUtxoError), Other }
fn format_err<'a>(e: &'a (dyn std::error::Error + 'static)) -> Fe<'a> {
    let mut cur = Some(e);
    while let Some(x) = cur {
        if let Some(t) = x.downcast_ref() {
            return Fe::Type(t);
        }
        if let Some(t) = x.downcast_ref() {
            return Fe::Fund(t);
        }
        cur = x.source();
    }
    Fe::Other
}
fn checked(e: &v2::InterpreterCheckError, bad: &BTreeSet<usize>) -> Res {
    if let v2::InterpreterCheckError::InterpreterCheckInput(e) = e {
        let i = match e {
            v2::InterpreterCheckInputError::Constructor { input_index, .. } | v2::InterpreterCheckInputError::Satisfaction { input_index, .. } => *input_index,
        };
        if !bad.contains(&i) {
            return Err(format!("the error names input {}, wrong are {:?}", i, bad));
        }
    }
    Ok(())
}

/// Final inputs, one or two of which do not satisfy what they spend.
fn interpreting(ctx: &Ctx) {
    for name in ["pkh(A)", "wpkh(A)", "sh(multi(2,A,B,C))", "wsh(multi(2,A,B,C))", "tr(A)"] {
        let k = kind(name);
        for (n, at) in spots() {
            if n == 300 && name != "wpkh(A)" {
                continue;
            }
            for also in 0..n.min(3) {
                if n == 300 && also > 0 {
                    continue;
                }
                ctx.case(
                    || format!("interpret {} at {} of {} and {}", name, at, n, also),
                    |ctx| {
                        let bad: BTreeSet<usize> = [at, also].into_iter().filter(|x| *x == at || also > 0).collect();
                        let (_, p) = signed(&k, n, |s| s.v2(), |p| &mut p.inputs);
                        let good = v2::Finalizer::new(p).map_err(|e| e.to_string())?.finalize(secp()).map_err(|e| format!("{:?}", e))?;
                        let (_, mut p) = signed(&k, n, |s| s.v0(), |p| &mut p.inputs);
                        p.finalize_mut(secp()).map_err(|e| format!("{:?}", e))?;
                        for cause in 0..3 {
                            let (mut q2, mut q0) = (good.clone(), p.clone());
                            for b in &bad {
                                // Spoilt: emptied, of another input, cut short.
                                let (ss, w) = (q2.inputs[*b].final_script_sig.clone(), q2.inputs[*b].final_script_witness.clone());
                                let (ss, w) = match cause {
                                    0 => (ScriptBuf::new(), Witness::new()),
                                    1 => (ScriptBuf::from_bytes(vec![0x51]), Witness::from_slice(&[vec![1u8]])),
                                    _ => {
                                        let w = w.unwrap_or_default();
                                        let cut: Vec<Vec<u8>> = w.iter().map(|x| x.to_vec()).take(w.len().saturating_sub(1)).collect();
                                        let mut s = ss.unwrap_or_default().to_bytes();
                                        s.pop();
                                        (ScriptBuf::from_bytes(s), Witness::from_slice(&cut))
                                    }
                                };
                                q2.inputs[*b].final_script_sig = Some(ss.clone());
                                q2.inputs[*b].final_script_witness = Some(w.clone());
                                q0.inputs[*b].final_script_sig = Some(ss);
                                q0.inputs[*b].final_script_witness = Some(w);
                            }
                            ctx.steps(2);
                            ctx.validated();
                            if q2.is_finalized() {
                                match q2.interpreter_check(secp()) {
                                    Ok(_) => return Err(format!("v2 accepts spoilt inputs {:?} ({})", bad, cause)),
                                    Err(e) => {
                                        ctx.err(&e)?;
                                        checked(&e, &bad)?;
                                    }
                                }
                            }
                            match q0.extract(secp()) {
                                Ok(_) => return Err(format!("v0 accepts spoilt inputs {:?} ({})", bad, cause)),
                                Err(e) => {
                                    ctx.err(&e)?;
                                    match e {
                                        M0::InputError(_, i) if !bad.contains(&i) => return Err(format!("the error names input {}, wrong are {:?}", i, bad)),
                                        M0::InputError(..) => {}
                                        e => return Err(format!("{:?}", e)),
                                    }
                                }
                            }
                        }
                        ctx.outcome("interpreted");
                        Ok(())
                    },
                );
            }
        }
    }
    // Wrong counts: what the error says is what there is.
    for tx in 0..3usize {
        for map in 0..3usize {
            ctx.case(
                || format!("interpret counts {} {}", tx, map),
                |ctx| {
                    let (mut p, _) = <v0::Psbt as PsbtV>::base(tx, 1);
                    p.inputs = vec![Default::default(); map];
                    ctx.step();
                    match p.extract(secp()) {
                        Err(M0::WrongInputCount { in_tx, in_map }) => {
                            eq("inputs of the transaction", &in_tx, &tx)?;
                            eq("input maps", &in_map, &map)?;
                            if tx == map {
                                return Err("the counts agree".into());
                            }
                        }
                        Err(e) => ctx.err(&e)?,
                        Ok(_) => {}
                    }
                    Ok(())
                },
            );
        }
    }
}

// ---------------------------------------------------------------- signing

fn signing(ctx: &Ctx) {
    for name in ["pkh(A)", "wpkh(A)", "sh(wpkh(A))", "wsh(multi(2,A,B,C))"] {
        let k = kind(name);
        for (n, at) in spots() {
            if n == 300 && name != "wpkh(A)" && !ctx.thorough {
                continue;
            }
            for also in 0..n.min(3) {
                for f in [Flaw::NoUtxo, Flaw::Vout, Flaw::BadType] {
                    ctx.case(
                        || format!("sign {} {:?} at {} of {} and {}", name, f, at, n, also),
                        |ctx| {
                            let bad: BTreeSet<usize> = [at, also].into_iter().filter(|x| *x == at || also > 0).collect();
                            let s = spend(&vec![k.spk.clone(); n], 1, 2, 0, &vec![0xffff_fffd; n]);
                            fn fill<I: InMap>(s: &Spend, k: &Kind, v: &mut [I], bad: &BTreeSet<usize>, f: Flaw) -> bool {
                                for (ix, i) in v.iter_mut().enumerate() {
                                    describe(i, k);
                                    s.fund(i, ix, if k.segwit() { Form::Wit } else { Form::Non });
                                    if bad.contains(&ix) {
                                        match f {
                                            Flaw::BadType => i.set_type(Some(0x1234)),
                                            f => {
                                                if !spoil(i, k, f) {
                                                    return false;
                                                }
                                            }
                                        }
                                    }
                                }
                                true
                            }
                            let (mut p2, mut p0) = (s.v2(), s.v0());
                            if !fill(&s, &k, &mut p2.inputs, &bad, f) || !fill(&s, &k, &mut p0.inputs, &bad, f) {
                                return Ok(());
                            }
                            ctx.steps(2);
                            ctx.validated();
                            let xp = xpriv(7);
                            let all: Vec<usize> = (0..n).filter(|i| !bad.contains(i)).collect();
                            // An input without its spent output may be passed over without an error.
                            let cmp = |who: &str, used: Vec<usize>, errs: Vec<usize>| -> Res {
                                let got: BTreeSet<usize> = errs.iter().cloned().collect();
                                if used != all || !got.is_subset(&bad) || (f == Flaw::BadType && got != bad) {
                                    return Err(format!("{}: wrong are {:?} of {}; signed {:?}, errors for {:?}", who, bad, n, used, errs));
                                }
                                Ok(())
                            };
                            match v2::Signer::new(p2).map_err(|e| e.to_string())?.sign(&xp, secp()) {
                                Ok((_, used)) => cmp("v2", used.keys().cloned().collect(), vec![])?,
                                Err((used, errs)) => {
                                    for (i, e) in &errs {
                                        ctx.err(e)?;
                                        if let (v2::SignError::FundingUtxo(e), true) = (e, *i < n) {
                                            funding(e, s.tx.input[*i].previous_output.vout, 0)?;
                                        }
                                    }
                                    cmp("v2", used.keys().cloned().collect(), errs.keys().cloned().collect())?;
                                }
                            }
                            match p0.sign(&xp, secp()) {
                                Ok(used) => cmp("v0", used.keys().cloned().collect(), vec![])?,
                                Err((used, errs)) => {
                                    for e in errs.values() {
                                        ctx.err(e)?;
                                    }
                                    cmp("v0", used.keys().cloned().collect(), errs.keys().cloned().collect())?;
                                }
                            }
                            ctx.outcome("signed in part");
                            Ok(())
                        },
                    );
                }
            }
        }
    }
}

// ---------------------------------------------------------------- funding, fees

fn money(ctx: &Ctx) {
    for len in 0..4usize {
        for vout in [len as u32, len as u32 + 1, 252, 253, 255, 256, 65_535, 65_536, u32::MAX - 1, u32::MAX] {
            for at in 0..3usize {
                ctx.case(
                    || format!("fund {} of {} at {}", vout, len, at),
                    |ctx| {
                        let mut p = <v2::Psbt as PsbtV>::base(3, 1).0;
                        for (ix, i) in p.inputs.iter_mut().enumerate() {
                            i.witness_utxo = Some(txo(50_000, p2wpkh(1)));
                            if ix == at {
                                let tx = Transaction {
                                    version: transaction::Version::TWO,
                                    lock_time: absolute::LockTime::ZERO,
                                    input: vec![TxIn::default()],
                                    output: vec![txo(1, p2wpkh(1)); len],
                                };
                                *i = v2::Input::new(&OutPoint { txid: crate::model::txid_of(&tx), vout });
                                i.non_witness_utxo = Some(tx);
                            }
                        }
                        ctx.steps(4);
                        ctx.validated();
                        let e = p.inputs[at].funding_utxo().err().ok_or("funded")?;
                        ctx.err(&e)?;
                        funding(&e, vout, len)?;
                        match p.fee() {
                            Err(FeeError::FundingUtxo(e)) => funding(&e, vout, len)?,
                            r => return Err(format!("fee: {:?}", r)),
                        }
                        if let Err(e) = v2::Finalizer::new(p.clone()) {
                            if let Fe::Fund(e) = format_err(&e) {
                                funding(e, vout, len)?;
                            }
                        }
                        let v: Vec<bool> = p.iter_funding_utxos().map(|r| r.is_err()).collect();
                        if v != (0..3).map(|i| i == at).collect::<Vec<_>>() {
                            return Err(format!("iter_funding_utxos fails for {:?}", v));
                        }
                        ctx.outcome("no such output");
                        Ok(())
                    },
                );
            }
        }
    }
    // Refused for the fee: the error gives the rate, the limit and the transaction.
    for n in [1usize, 2, 3, 260] {
        for fee in [0u64, 1, 10, 1000, 12_345, 1_000_000, 2_000_000_000] {
            for max in [0u64, 1, 250, 25_000, 6_250_000, 1 << 40] {
                ctx.case(
                    || format!("rate {} inputs {} sat, limit {}", n, fee, max),
                    |ctx| {
                        let (mut p2, mut p0) = (<v2::Psbt as PsbtV>::base(n, 1).0, <v0::Psbt as PsbtV>::base(n, 1).0);
                        let out = p0.unsigned_tx.output[0].value.to_sat();
                        let mut tx = p0.unsigned_tx.clone();
                        for i in 0..n {
                            let u = Some(txo(if i == 0 { out + fee } else { 0 }, p2wpkh(1)));
                            let w = Witness::from_slice(&[vec![i as u8; 72], vec![2; 33]]);
                            tx.input[i].witness = w.clone();
                            p2.inputs[i].witness_utxo = u.clone();
                            p2.inputs[i].final_script_witness = Some(w.clone());
                            p2.inputs[i].final_script_sig = Some(ScriptBuf::new());
                            p0.inputs[i].witness_utxo = u;
                            p0.inputs[i].final_script_witness = Some(w);
                        }
                        // The weight, from the serialised sizes.
                        let all = bitcoin::consensus::serialize(&tx).len() as u64;
                        let base = legacy_ser(&p0.unsigned_tx).len() as u64;
                        let weight = base * 3 + all;
                        let rate = FeeRate::from_sat_per_kwu((fee as u128 * 1000 / weight as u128) as u64);
                        let limit = FeeRate::from_sat_per_kwu(max);
                        ctx.steps(2);
                        ctx.validated();
                        match v2::Extractor::new(p2).map_err(|e| e.to_string())?.extract_tx_with_fee_rate_limit(limit) {
                            Ok(_) if rate > limit => return Err("v2 extracts".into()),
                            Ok(t) => {
                                if t != tx {
                                    return Err("v2 extracts another transaction".into());
                                }
                            }
                            Err(e) => {
                                ctx.err(&e)?;
                                if let v2::ExtractTxFeeRateError::FeeTooHigh { fee, max } = e {
                                    eq("fee rate", &fee, &rate)?;
                                    eq("limit", &max, &limit)?;
                                    ctx.outcome("fee too high");
                                }
                            }
                        }
                        let before = p0.clone();
                        match p0.clone().extract_tx_with_fee_rate_limit(limit) {
                            Ok(_) if rate > limit => return Err("v0 extracts".into()),
                            Ok(_) => {}
                            Err(e) => {
                                ctx.err(&e)?;
                                if let b0::ExtractTxError::AbsurdFeeRate { fee_rate, tx: t } = e {
                                    eq("fee rate", &fee_rate, &rate)?;
                                    eq("transaction", &t, &tx)?;
                                }
                            }
                        }
                        // Without values, and with too little.
                        p0.inputs[n - 1].witness_utxo = None;
                        match p0.extract_tx_with_fee_rate_limit(limit) {
                            Err(b0::ExtractTxError::MissingInputValue { tx: t }) => eq("transaction", &t, &tx)?,
                            r => return Err(format!("without a value: {:?}", r.map(|_| ()))),
                        }
                        let mut p0 = before;
                        p0.inputs[0].witness_utxo.as_mut().unwrap().value = Amount::from_sat(out - 1);
                        match p0.clone().extract_tx_with_fee_rate_limit(limit) {
                            Err(b0::ExtractTxError::SendingTooMuch { psbt }) => eq("PSBT", &psbt, &p0)?,
                            r => return Err(format!("sending too much: {:?}", r.map(|_| ()))),
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

// ---------------------------------------------------------------- combining

fn combining(ctx: &Ctx) {
    for (n, at) in spots() {
        ctx.case(
            || format!("combine maps at {} of {}", at, n),
            |ctx| {
                let a = <v2::Psbt as PsbtV>::base(n, n).0;
                let mut tries: Vec<v2::Psbt> = vec![];
                let mut b = a.clone();
                b.inputs[at].previous_txid = txid(900);
                tries.push(b);
                let mut b = a.clone();
                b.inputs[at].spent_output_index = 77;
                tries.push(b);
                let mut b = a.clone();
                b.outputs[at].amount = Amount::from_sat(7);
                tries.push(b);
                let mut b = a.clone();
                b.outputs[at].script_pubkey = p2wpkh(77);
                tries.push(b);
                let mut b = a.clone();
                b.global.tx_version = transaction::Version(77);
                tries.push(b);
                for b in &tries {
                    for (x, y) in [(&a, b), (b, &a)] {
                        ctx.step();
                        ctx.validated();
                        match v2::combine(x.clone(), y.clone()) {
                            Ok(_) => return Err("combined".into()),
                            Err(e) => {
                                ctx.err(&e)?;
                                said_combine(&e, x, y, at)?;
                            }
                        }
                        // The maps' own combining.
                        let (mut i, mut o, mut g) = (x.inputs[at].clone(), x.outputs[at].clone(), x.global.clone());
                        if let Err(e) = i.combine(y.inputs[at].clone()) {
                            ctx.err(&e)?;
                            said_combine(&v2::CombineError::Input(e), x, y, at)?;
                        } else if x.inputs[at] != y.inputs[at] {
                            return Err("inputs combine".into());
                        }
                        if let Err(e) = o.combine(y.outputs[at].clone()) {
                            ctx.err(&e)?;
                            said_combine(&v2::CombineError::Output(e), x, y, at)?;
                        } else if x.outputs[at] != y.outputs[at] {
                            return Err("outputs combine".into());
                        }
                        if let Err(e) = g.combine(y.global.clone()) {
                            ctx.err(&e)?;
                            said_combine(&v2::CombineError::Global(e), x, y, at)?;
                        } else if x.global != y.global {
                            return Err("globals combine".into());
                        }
                    }
                }
                // Version 0.
                let a = <v0::Psbt as PsbtV>::base(n, n).0;
                for change in 0..5 {
                    let mut b = a.clone();
                    let t = &mut b.unsigned_tx;
                    match change {
                        0 => t.input[at].previous_output = op(900, 7),
                        1 => t.input[at].sequence = Sequence(7),
                        2 => t.output[at].value = Amount::from_sat(7),
                        3 => t.version = transaction::Version(7),
                        _ => t.lock_time = absolute::LockTime::from_consensus(7),
                    }
                    for (x, y) in [(&a, &b), (&b, &a)] {
                        ctx.step();
                        match x.clone().combine(y.clone()) {
                            Ok(_) => return Err("combined".into()),
                            Err(e) => {
                                ctx.err(&e)?;
                                if let b0::Error::UnexpectedUnsignedTx { expected, actual } = e {
                                    eq("the expected transaction", &*expected, &x.unsigned_tx)?;
                                    eq("the actual transaction", &*actual, &y.unsigned_tx)?;
                                }
                            }
                        }
                    }
                }
                ctx.outcome("not combined");
                Ok(())
            },
        );
    }
    // Key origins: among 1 to 3 (and many) keys, the one in conflict is named.
    for n in [1u32, 2, 3, 40] {
        for at in 0..n {
            ctx.case(
                || format!("combine origins {} of {}", at, n),
                |ctx| {
                    let (mut a, mut b) = (<v2::Psbt as PsbtV>::base(1, 1).0, <v2::Psbt as PsbtV>::base(1, 1).0);
                    let (mut a0, mut b0_) = (<v0::Psbt as PsbtV>::base(1, 1).0, <v0::Psbt as PsbtV>::base(1, 1).0);
                    for i in 0..n {
                        let s = ks([i as u8; 4], &[i, 7]);
                        let t = if i == at { ks([99; 4], &[5]) } else { s.clone() };
                        a.global.xpubs.insert(xpub(i), s.clone());
                        b.global.xpubs.insert(xpub(i), t.clone());
                        a0.xpub.insert(xpub(i), s);
                        b0_.xpub.insert(xpub(i), t);
                    }
                    for (x, y) in [(&a, &b), (&b, &a)] {
                        ctx.step();
                        ctx.validated();
                        match v2::combine(x.clone(), y.clone()) {
                            Err(e) => {
                                ctx.err(&e)?;
                                if let v2::CombineError::Global(global::CombineError::InconsistentKeySources(e)) = e {
                                    eq("the extended key", &e.0, &xpub(at))?;
                                }
                            }
                            Ok(_) => return Err("combined".into()),
                        }
                    }
                    for (x, y) in [(&a0, &b0_), (&b0_, &a0)] {
                        ctx.step();
                        match x.clone().combine(y.clone()) {
                            Err(e) => {
                                ctx.err(&e)?;
                                if let b0::Error::CombineInconsistentKeySources(e) = e {
                                    eq("the extended key", &*e, &xpub(at))?;
                                }
                            }
                            Ok(_) => return Err("combined".into()),
                        }
                    }
                    ctx.outcome("origins differ");
                    Ok(())
                },
            );
        }
    }
}
fn said_combine(e: &v2::CombineError, x: &v2::Psbt, y: &v2::Psbt, at: usize) -> Res {
    match e {
        v2::CombineError::Global(global::CombineError::TxVersionMismatch { this, that }) => both("transaction versions", this, that, &x.global.tx_version, &y.global.tx_version),
        v2::CombineError::Global(global::CombineError::VersionMismatch { this, that }) => both("versions", this, that, &x.global.version, &y.global.version),
        v2::CombineError::Input(input::CombineError::PreviousTxidMismatch { this, that }) => both("txids", this, that, &x.inputs[at].previous_txid, &y.inputs[at].previous_txid),
        v2::CombineError::Input(input::CombineError::SpentOutputIndexMismatch { this, that }) => {
            both("output indices", this, that, &x.inputs[at].spent_output_index, &y.inputs[at].spent_output_index)
        }
        v2::CombineError::Output(output::CombineError::AmountMismatch { this, that }) => both("amounts", this, that, &x.outputs[at].amount, &y.outputs[at].amount),
        v2::CombineError::Output(output::CombineError::ScriptPubkeyMismatch { this, that }) => both("scripts", this, that, &x.outputs[at].script_pubkey, &y.outputs[at].script_pubkey),
        _ => Ok(()),
    }
}

pub fn named(ctx: &Ctx) {
    decoding::<v2::Psbt>(ctx, said2);
    decoding::<v0::Psbt>(ctx, said0);
    beyond(ctx);
    miscounted(ctx);
    finalising(ctx);
    interpreting(ctx);
    signing(ctx);
    money(ctx);
    combining(ctx);
}
