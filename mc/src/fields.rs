//! The field tables: for every field of every map of both versions, how to set it through the public API
//! and which raw key-value pair it must turn into. Written from the BIPs, independently of the encoders.
use crate::util::*;
use crate::wire::*;
use bitcoin::consensus::serialize as cser;
use bitcoin::taproot::*;
use bitcoin::*;
use psbt_v2::{v0, v2};
use std::fmt::Debug;

/// One key-value pair that can be set on map number `ix` of its kind.
pub struct Atom<P: 'static> {
    pub name: String,
    pub field: &'static str,
    pub k: K,
    pub kv: Kv,
    /// Excluded from pair enumerations (large values).
    pub rare: bool,
    pub set: Box<dyn Fn(&mut P, usize)>,
}

pub trait PsbtV: Sized + Clone + PartialEq + Eq + Debug + std::hash::Hash + 'static {
    const VER: Ver;
    type E: std::error::Error + 'static;
    fn base(n_in: usize, n_out: usize) -> (Self, WPsbt);
    fn atoms() -> &'static [Atom<Self>];
    fn ser(&self) -> Vec<u8>;
    fn de(b: &[u8]) -> Result<Self, Self::E>;
    fn hexs(&self) -> String;
}

pub fn base_tx(n_in: usize, n_out: usize) -> Transaction {
    Transaction {
        version: transaction::Version::TWO,
        lock_time: absolute::LockTime::ZERO,
        input: (0..n_in)
            .map(|i| TxIn { previous_output: op(i as u32, i as u32), sequence: Sequence::MAX, ..Default::default() })
            .collect(),
        output: (0..n_out).map(|i| txo(50_000 + i as u64, p2wpkh(40 + i as u32))).collect(),
    }
}

impl PsbtV for v2::Psbt {
    const VER: Ver = Ver::V2;
    type E = v2::DeserializeError;
    fn base(n_in: usize, n_out: usize) -> (Self, WPsbt) {
        let mut p = v2::Creator::new().psbt();
        let tx = base_tx(n_in, n_out);
        p.inputs = tx.input.iter().map(|i| v2::Input::new(&i.previous_output)).collect();
        p.outputs = tx.output.iter().map(|o| v2::Output::new(o.clone())).collect();
        p.global.input_count = n_in;
        p.global.output_count = n_out;
        let w = WPsbt {
            g: vec![
                kv(0xfb, [], 2u32.to_le_bytes()),
                kv(2, [], 2u32.to_le_bytes()),
                kv(4, [], cs(n_in as u64)),
                kv(5, [], cs(n_out as u64)),
                kv(6, [], [0]),
            ],
            i: (0..n_in as u32)
                .map(|i| {
                    use bitcoin::hashes::Hash;
                    vec![kv(0x0e, [], txid(i).to_byte_array()), kv(0x0f, [], i.to_le_bytes())]
                })
                .collect(),
            o: (0..n_out as u64)
                .map(|i| {
                    vec![
                        kv(3, [], (50_000 + i).to_le_bytes()),
                        kv(4, [], p2wpkh(40 + i as u32).into_bytes()),
                    ]
                })
                .collect(),
        };
        (p, w)
    }
    fn atoms() -> &'static [Atom<Self>] {
        thread_local! { static A: std::cell::OnceCell<&'static [Atom<v2::Psbt>]> = const { std::cell::OnceCell::new() }; }
        A.with(|a| *a.get_or_init(|| Box::leak(v2_atoms().into_boxed_slice())))
    }
    fn ser(&self) -> Vec<u8> { self.serialize() }
    fn hexs(&self) -> String { self.serialize_hex() }
    fn de(b: &[u8]) -> Result<Self, Self::E> { Self::deserialize(b) }
}

impl PsbtV for v0::Psbt {
    const VER: Ver = Ver::V0;
    type E = v0::bitcoin::Error;
    fn base(n_in: usize, n_out: usize) -> (Self, WPsbt) { v0_from(base_tx(n_in, n_out)) }
    fn atoms() -> &'static [Atom<Self>] {
        thread_local! { static A: std::cell::OnceCell<&'static [Atom<v0::Psbt>]> = const { std::cell::OnceCell::new() }; }
        A.with(|a| *a.get_or_init(|| Box::leak(v0_atoms().into_boxed_slice())))
    }
    fn ser(&self) -> Vec<u8> { self.serialize() }
    fn hexs(&self) -> String { self.serialize_hex() }
    fn de(b: &[u8]) -> Result<Self, Self::E> { Self::deserialize(b) }
}

/// An unsigned transaction is written without the segwit marker even when it has no inputs.
pub fn legacy_ser(tx: &Transaction) -> Vec<u8> {
    let mut b = cser(&tx.version);
    b.extend(cser(&tx.input));
    b.extend(cser(&tx.output));
    b.extend(cser(&tx.lock_time));
    b
}

pub fn v0_from(tx: Transaction) -> (v0::Psbt, WPsbt) {
    let w = WPsbt {
        g: vec![kv(0, [], legacy_ser(&tx))],
        i: vec![vec![]; tx.input.len()],
        o: vec![vec![]; tx.output.len()],
    };
    (v0::Psbt::from_unsigned_tx(tx).expect("unsigned transaction"), w)
}

/// `sel` holds (map number of the kind, atom). Later atoms replace earlier ones of the same key.
pub fn build<P: PsbtV>(n_in: usize, n_out: usize, sel: &[(usize, &Atom<P>)]) -> (P, WPsbt) {
    let (mut p, mut w) = P::base(n_in, n_out);
    for (ix, a) in sel {
        apply(&mut p, &mut w, *ix, a);
    }
    normalise::<P>(&mut w);
    (p, w)
}
pub fn apply<P: PsbtV>(p: &mut P, w: &mut WPsbt, ix: usize, a: &Atom<P>) {
    (a.set)(p, ix);
    let m = match a.k {
        K::G => &mut w.g,
        K::I => &mut w.i[ix],
        K::O => &mut w.o[ix],
    };
    match m.iter_mut().find(|x| x.t == a.kv.t && x.kd == a.kv.kd) {
        Some(x) => *x = a.kv.clone(),
        None => m.push(a.kv.clone()),
    }
}
/// A silent payment output without a script has no script pair.
pub fn normalise<P: PsbtV>(w: &mut WPsbt) {
    if SP && P::VER == Ver::V2 {
        for m in &mut w.o {
            if m.iter().any(|p| p.t == 9) {
                m.retain(|p| !(p.t == 4 && p.kd.is_empty() && p.v.is_empty()));
            }
        }
    }
}

/// Adds what the pairing rules of BIP-375 ask for so that the selection is a well-formed PSBT.
pub fn complete<'a, P: PsbtV>(sel: &[(usize, &'a Atom<P>)]) -> Vec<(usize, &'a Atom<P>)> {
    let mut out = sel.to_vec();
    if P::VER != Ver::V2 {
        return out;
    }
    let mut need: Vec<(usize, K, &str)> = vec![];
    for (ix, a) in sel {
        let has = |f: &str| sel.iter().any(|(j, b)| j == ix && b.k == a.k && b.field == f);
        if a.field == "sp_ecdh_shares" && !has("sp_dleq_proofs") {
            need.push((*ix, a.k, "sp_dleq_proofs"));
        }
        if a.field == "sp_dleq_proofs" && !has("sp_ecdh_shares") {
            need.push((*ix, a.k, "sp_ecdh_shares"));
        }
        if a.field == "sp_v0_label" && !has("sp_v0_info") {
            need.push((*ix, a.k, "sp_v0_info"));
        }
    }
    for (ix, k, f) in need {
        if !out.iter().any(|(j, b)| *j == ix && b.k == k && b.field == f) {
            let a = P::atoms().iter().find(|b| b.k == k && b.field == f).unwrap();
            out.push((ix, a));
        }
    }
    out
}

/// The `n`-th of many pairs of one keyed field, after the pattern of `a`; `None` for fields with one value.
/// Silent payment shares come with their proofs.
pub fn crowd<P: PsbtV>(a: &Atom<P>, n: u32) -> Option<Vec<Kv>> {
    use bitcoin::hashes::Hash;
    let (t, v) = (a.kv.t, a.kv.v.clone());
    let i = n + 10;
    let pre = n.to_be_bytes().to_vec();
    Some(match (a.k, t, a.field) {
        (_, _, "unknown") => vec![kv(t, n.to_be_bytes(), pre)],
        (_, _, "proprietary") => vec![kv(t, prop_kd(b"mc", 7, &n.to_be_bytes()), pre)],
        (K::G, 1, _) => vec![kv(1, xpub(i).encode(), ks_bytes([n as u8; 4], &[n]))],
        (K::I, 2, _) => vec![kv(2, pk(i).to_bytes(), v)],
        (K::I, 6, _) | (K::O, 2, _) => vec![kv(t, spk_(i).serialize(), ks_bytes([n as u8; 4], &[n]))],
        (K::I, 0x0a, _) => vec![kv(t, h_ripemd(&pre).to_byte_array(), pre)],
        (K::I, 0x0b, _) => vec![kv(t, h_sha256(&pre).to_byte_array(), pre)],
        (K::I, 0x0c, _) => vec![kv(t, h_hash160(&pre).to_byte_array(), pre)],
        (K::I, 0x0d, _) => vec![kv(t, h_hash256(&pre).to_byte_array(), pre)],
        (K::I, 0x14, _) => {
            let mut kd = xonly(1 + n % 3).serialize().to_vec();
            kd.extend(sha(&pre));
            vec![kv(t, kd, v)]
        }
        (K::I, 0x15, _) => vec![kv(t, control_bytes(i, n as usize % 4, 0xc0, n % 2 == 1), [&pre[..], &[0xc0]].concat())],
        (K::I, 0x16, _) | (K::O, 7, _) => {
            vec![kv(t, xonly(i).serialize(), origin_bytes(&vec![leaf_hash(1); n as usize % 3], [n as u8; 4], &[n]))]
        }
        (K::G, 7, "sp_ecdh_shares") | (K::I, 0x1d, "sp_ecdh_shares") => vec![
            kv(t, spk_(i).serialize(), spk_(i + 1).serialize()),
            kv(t + 1, spk_(i).serialize(), [n as u8; 64]),
        ],
        _ => return None,
    })
}
/// The first value of each field that can have many.
pub fn crowded<P: PsbtV>() -> Vec<&'static Atom<P>> {
    P::atoms().iter().filter(|a| a.name.ends_with("#0") && crowd(a, 0).is_some()).collect()
}
/// The numbers around which widths of counts and indices change.
pub const FAR: [usize; 7] = [0, 1, 127, 253, 255, 256, 299];

/// Two atoms that cannot both be set.
pub fn clash<P>(a: &Atom<P>, b: &Atom<P>) -> bool { a.k == b.k && a.kv.t == b.kv.t && a.kv.kd == b.kv.kd }

/// One atom for each key of each map: the largest selection without clashes for the shape.
pub fn all_atoms<P: PsbtV>(n_in: usize, n_out: usize, skip: impl Fn(&Atom<P>) -> bool) -> Vec<(usize, &'static Atom<P>)> {
    let mut out: Vec<(usize, &'static Atom<P>)> = vec![];
    for a in P::atoms() {
        if a.rare || skip(a) {
            continue;
        }
        let n = match a.k {
            K::G => 1,
            K::I => n_in,
            K::O => n_out,
        };
        for ix in 0..n {
            if !out.iter().any(|(j, b)| *j == ix && clash(a, b)) {
                out.push((ix, a));
            }
        }
    }
    out
}

pub fn script(i: u8) -> ScriptBuf { ScriptBuf::from_bytes(vec![0x51, 0x60 - i, 0x87]) }
pub fn leaf_hash(i: u8) -> TapLeafHash { TapLeafHash::from_script(&script(i), LeafVersion::TapScript) }
pub fn control(i: u32, depth: usize, lv: LeafVersion, parity: secp256k1::Parity) -> ControlBlock {
    use bitcoin::hashes::Hash;
    ControlBlock {
        leaf_version: lv,
        output_key_parity: parity,
        internal_key: xonly(i),
        merkle_branch: TaprootMerkleBranch::try_from(
            (0..depth)
                .map(|d| TapNodeHash::from_byte_array(sha(&[d as u8, i as u8])))
                .collect::<Vec<_>>(),
        )
        .unwrap(),
    }
}
pub fn control_bytes(i: u32, depth: usize, lv: u8, odd: bool) -> Vec<u8> {
    let mut b = vec![lv | odd as u8];
    b.extend(xonly(i).serialize());
    for d in 0..depth {
        b.extend(sha(&[d as u8, i as u8]));
    }
    b
}
pub fn tap_trees() -> Vec<(TapTree, Vec<u8>)> {
    let leaf = |d: u8, lv: u8, s: &ScriptBuf| {
        let mut b = vec![d, lv];
        b.extend(cs(s.len() as u64));
        b.extend(s.as_bytes());
        b
    };
    let shapes: Vec<Vec<(u8, u8, ScriptBuf)>> = vec![
        vec![(0, 0xc0, script(1))],
        vec![(1, 0xc0, script(1)), (1, 0xc0, script(2))],
        vec![(1, 0xc0, script(1)), (2, 0xc0, script(2)), (2, 0xc4, script(3))],
        vec![(2, 0xc0, script(3)), (2, 0xc0, script(2)), (1, 0xc0, script(1))],
        vec![(2, 0xc0, script(1)), (2, 0xc0, script(2)), (2, 0xc0, script(3)), (2, 0xc0, script(4))],
        vec![(1, 0xc0, ScriptBuf::new()), (1, 0xc2, ScriptBuf::from_bytes(vec![0x61; 253]))],
        vec![(1, 0xc0, script(1)), (3, 0xc0, script(2)), (3, 0xc0, script(3)), (2, 0xc0, script(4))],
    ];
    shapes
        .into_iter()
        .map(|s| {
            let mut b = TaprootBuilder::new();
            let mut raw = vec![];
            for (d, lv, sc) in &s {
                b = b.add_leaf_with_ver(*d, sc.clone(), LeafVersion::from_consensus(*lv).unwrap()).unwrap();
                raw.extend(leaf(*d, *lv, sc));
            }
            (TapTree::try_from(b).unwrap(), raw)
        })
        .collect()
}
fn origin_bytes(leaves: &[TapLeafHash], fp: [u8; 4], p: &[u32]) -> Vec<u8> {
    use bitcoin::hashes::Hash;
    let mut b = cs(leaves.len() as u64);
    for l in leaves {
        b.extend(l.to_byte_array());
    }
    b.extend(ks_bytes(fp, p));
    b
}
fn prop_kd(prefix: &[u8], sub: u8, key: &[u8]) -> Vec<u8> {
    let mut b = cs(prefix.len() as u64);
    b.extend(prefix);
    b.push(sub);
    b.extend(key);
    b
}
fn schnorr_bytes(s: &taproot::Signature) -> Vec<u8> {
    let mut b = s.signature.serialize().to_vec();
    if s.sighash_type != TapSighashType::Default {
        b.push(s.sighash_type as u8);
    }
    b
}
fn ecdsa_bytes(s: &ecdsa::Signature) -> Vec<u8> {
    let mut b = s.signature.serialize_der().to_vec();
    b.push(s.sighash_type as u8);
    b
}

/// The third field is set while values are added that are explored alone and with every other field set, not in pairs.
struct B<P: 'static>(Vec<Atom<P>>, std::collections::HashMap<(K, &'static str), usize>, bool);
impl<P> B<P> {
    fn add(&mut self, k: K, field: &'static str, kv: Kv, set: impl Fn(&mut P, usize) + 'static) {
        let n = self.1.entry((k, field)).or_default();
        let name = format!("{:?}.{}#{}", k, field, n);
        *n += 1;
        let rare = self.2 || kv.v.len() > 1500 || kv.kd.len() > 1500;
        self.0.push(Atom { name, field, k, kv, rare, set: Box::new(set) });
    }
}

type Path = (&'static [u32], [u8; 4]);
const PATHS: [Path; 3] =
    [(&[], [0; 4]), (&[1, 0x8000_0002], [1, 2, 3, 4]), (&[0x8000_0054, 0x8000_0000, 0x8000_0000, 0, 0xffff_ffff], [0xff; 4])];

macro_rules! shared {
    ($b:ident, $P:ty, $glob:expr, $bip32:ident, $xpub:ident, $prop:ident, $unk:ident, $raw:path, $sht:ty, $unk_types:expr) => {{
        use $raw as raw;
        let b: &mut B<$P> = &mut $b;
        let glob = $glob;
        // ---- global
        for (i, (p, fp)) in [(1, PATHS[0]), (1, PATHS[1]), (2, PATHS[2])] {
            b.add(K::G, "xpubs", kv(1, xpub(i).encode(), ks_bytes(fp, p)), move |q, _| {
                glob(q).$xpub.insert(xpub(i), ks(fp, p));
            });
        }
        // ---- input
        for (t, vout) in [(1u32, 0u32), (2, 1)] {
            let tx = prev_tx(t, vout, txo(9, p2wpkh(1)));
            b.add(K::I, "non_witness_utxo", kv(0, [], cser(&tx)), move |q, i| q.inputs[i].non_witness_utxo = Some(tx.clone()));
        }
        {
            let tx = Transaction { input: vec![], ..prev_tx(3, 0, txo(u64::MAX, ScriptBuf::new())) };
            b.add(K::I, "non_witness_utxo", kv(0, [], cser(&tx)), move |q, i| q.inputs[i].non_witness_utxo = Some(tx.clone()));
        }
        for o in [txo(10, p2wpkh(1)), txo(u64::MAX, ScriptBuf::new()), txo(0, ScriptBuf::from_bytes(vec![0xab; 300]))] {
            b.add(K::I, "witness_utxo", kv(1, [], cser(&o)), move |q, i| q.inputs[i].witness_utxo = Some(o.clone()));
        }
        for (k, s) in [
            (pk(1), ecdsa_sig(1, EcdsaSighashType::All)),
            (pk(1), ecdsa_sig(2, EcdsaSighashType::NonePlusAnyoneCanPay)),
            (pk(2), ecdsa_sig(3, EcdsaSighashType::Single)),
            (upk(2), ecdsa_sig(4, EcdsaSighashType::None)),
            (pk(3), ecdsa_sig(5, EcdsaSighashType::AllPlusAnyoneCanPay)),
            (pk(4), ecdsa_sig(6, EcdsaSighashType::SinglePlusAnyoneCanPay)),
        ] {
            b.add(K::I, "partial_sigs", kv(2, k.to_bytes(), ecdsa_bytes(&s)), move |q, i| {
                q.inputs[i].partial_sigs.insert(k, s);
            });
        }
        for n in [1u32, 0x83, 0, 0xdead_beef] {
            b.add(K::I, "sighash_type", kv(3, [], n.to_le_bytes()), move |q, i| {
                q.inputs[i].sighash_type = Some(<$sht>::from_u32(n))
            });
        }
        for s in [script(1), script(2), ScriptBuf::new(), ScriptBuf::from_bytes(vec![0x61; 253])] {
            let (s1, s2, s3, s4, s5) = (s.clone(), s.clone(), s.clone(), s.clone(), s.clone());
            b.add(K::I, "redeem_script", kv(4, [], s.to_bytes()), move |q, i| q.inputs[i].redeem_script = Some(s1.clone()));
            b.add(K::I, "witness_script", kv(5, [], s.to_bytes()), move |q, i| q.inputs[i].witness_script = Some(s2.clone()));
            b.add(K::I, "final_script_sig", kv(7, [], s.to_bytes()), move |q, i| q.inputs[i].final_script_sig = Some(s3.clone()));
            b.add(K::O, "redeem_script", kv(0, [], s.to_bytes()), move |q, i| q.outputs[i].redeem_script = Some(s4.clone()));
            b.add(K::O, "witness_script", kv(1, [], s.to_bytes()), move |q, i| q.outputs[i].witness_script = Some(s5.clone()));
        }
        for (k, (p, fp)) in [(1u32, PATHS[0]), (1, PATHS[1]), (2, PATHS[2]), (3, PATHS[1])] {
            let v = kv(6, spk_(k).serialize(), ks_bytes(fp, p));
            b.add(K::I, "bip32_derivation", v, move |q, i| {
                q.inputs[i].$bip32.insert(spk_(k), ks(fp, p));
            });
            let v = kv(2, spk_(k).serialize(), ks_bytes(fp, p));
            b.add(K::O, "bip32_derivation", v, move |q, i| {
                q.outputs[i].$bip32.insert(spk_(k), ks(fp, p));
            });
        }
        for w in [
            Witness::from_slice(&[vec![1u8, 2], vec![], vec![7; 253]]),
            Witness::from_slice(&[vec![1u8]]),
            Witness::new(),
        ] {
            b.add(K::I, "final_script_witness", kv(8, [], cser(&w)), move |q, i| {
                q.inputs[i].final_script_witness = Some(w.clone())
            });
        }
        for pre in [b"".to_vec(), vec![7u8; 32], vec![9u8; 300]] {
            let (a1, a2, a3, a4) = (pre.clone(), pre.clone(), pre.clone(), pre.clone());
            b.add(K::I, "ripemd160_preimages", kv(0x0a, h_ripemd(&pre).to_byte_array(), pre.clone()), move |q, i| {
                q.inputs[i].ripemd160_preimages.insert(h_ripemd(&a1), a1.clone());
            });
            b.add(K::I, "sha256_preimages", kv(0x0b, h_sha256(&pre).to_byte_array(), pre.clone()), move |q, i| {
                q.inputs[i].sha256_preimages.insert(h_sha256(&a2), a2.clone());
            });
            b.add(K::I, "hash160_preimages", kv(0x0c, h_hash160(&pre).to_byte_array(), pre.clone()), move |q, i| {
                q.inputs[i].hash160_preimages.insert(h_hash160(&a3), a3.clone());
            });
            b.add(K::I, "hash256_preimages", kv(0x0d, h_hash256(&pre).to_byte_array(), pre.clone()), move |q, i| {
                q.inputs[i].hash256_preimages.insert(h_hash256(&a4), a4.clone());
            });
        }
        for s in [tap_sig(1, TapSighashType::Default), tap_sig(2, TapSighashType::All), tap_sig(3, TapSighashType::SinglePlusAnyoneCanPay)] {
            b.add(K::I, "tap_key_sig", kv(0x13, [], schnorr_bytes(&s)), move |q, i| q.inputs[i].tap_key_sig = Some(s));
        }
        for (k, l, s) in [
            (1u32, 1u8, tap_sig(1, TapSighashType::Default)),
            (1, 1, tap_sig(2, TapSighashType::None)),
            (1, 2, tap_sig(3, TapSighashType::AllPlusAnyoneCanPay)),
            (2, 1, tap_sig(4, TapSighashType::Default)),
        ] {
            let mut kd = xonly(k).serialize().to_vec();
            kd.extend(leaf_hash(l).to_byte_array());
            b.add(K::I, "tap_script_sigs", kv(0x14, kd, schnorr_bytes(&s)), move |q, i| {
                q.inputs[i].tap_script_sigs.insert((xonly(k), leaf_hash(l)), s);
            });
        }
        for (k, depth, lv, odd, sc) in [
            (1u32, 0usize, 0xc0u8, false, script(1)),
            (1, 0, 0xc0, false, script(2)),
            (1, 1, 0xc0, true, script(2)),
            (2, 3, 0xc4, false, ScriptBuf::new()),
            (3, 128, 0x66, true, script(3)),
        ] {
            let mut v = sc.to_bytes();
            v.push(lv);
            let par = if odd { secp256k1::Parity::Odd } else { secp256k1::Parity::Even };
            b.add(K::I, "tap_scripts", kv(0x15, control_bytes(k, depth, lv, odd), v), move |q, i| {
                let l = LeafVersion::from_consensus(lv).unwrap();
                q.inputs[i].tap_scripts.insert(control(k, depth, l, par), (sc.clone(), l));
            });
        }
        for (k, nl, (p, fp)) in [(1u32, 0usize, PATHS[0]), (1, 1, PATHS[1]), (2, 2, PATHS[2]), (3, 3, PATHS[1])] {
            // Not sorted by hash: the order given is the order written.
            let leaves: Vec<TapLeafHash> = [2u8, 1, 3][..nl].iter().map(|l| leaf_hash(*l)).collect();
            let raw = origin_bytes(&leaves, fp, p);
            let (l1, l2) = (leaves.clone(), leaves);
            b.add(K::I, "tap_key_origins", kv(0x16, xonly(k).serialize(), raw.clone()), move |q, i| {
                q.inputs[i].tap_key_origins.insert(xonly(k), (l1.clone(), ks(fp, p)));
            });
            b.add(K::O, "tap_key_origins", kv(7, xonly(k).serialize(), raw), move |q, i| {
                q.outputs[i].tap_key_origins.insert(xonly(k), (l2.clone(), ks(fp, p)));
            });
        }
        for k in [1u32, 2] {
            b.add(K::I, "tap_internal_key", kv(0x17, [], xonly(k).serialize()), move |q, i| q.inputs[i].tap_internal_key = Some(xonly(k)));
            b.add(K::O, "tap_internal_key", kv(5, [], xonly(k).serialize()), move |q, i| q.outputs[i].tap_internal_key = Some(xonly(k)));
        }
        for n in [[0u8; 32], sha(b"merkle")] {
            b.add(K::I, "tap_merkle_root", kv(0x18, [], n), move |q, i| {
                q.inputs[i].tap_merkle_root = Some(TapNodeHash::from_byte_array(n))
            });
        }
        for (t, raw) in tap_trees() {
            b.add(K::O, "tap_tree", kv(6, [], raw), move |q, i| q.outputs[i].tap_tree = Some(t.clone()));
        }
        // ---- proprietary and unknown, every map
        let props: Vec<(Vec<u8>, u8, Vec<u8>, Vec<u8>)> = vec![
            (b"mc".to_vec(), 1, vec![], b"value".to_vec()),
            (b"mc".to_vec(), 1, vec![], b"other".to_vec()),
            (b"mc".to_vec(), 0xff, vec![0, 1, 2], vec![]),
            (vec![], 0, vec![], vec![0xfc]),
            (vec![0xfe; 253], 0xfd, vec![5; 300], vec![1; 253]),
            (vec![], 0xfc, vec![6; 1024], vec![2; 70_000]),
        ];
        for (pre, sub, key, val) in props {
            for k in [K::G, K::I, K::O] {
                let rk = raw::ProprietaryKey { prefix: pre.clone(), subtype: sub, key: key.clone() };
                let v = val.clone();
                b.add(k, "proprietary", kv(0xfc, prop_kd(&pre, sub, &key), val.clone()), move |q, i| {
                    let m = match k {
                        K::G => &mut glob(q).$prop,
                        K::I => &mut q.inputs[i].$prop,
                        K::O => &mut q.outputs[i].$prop,
                    };
                    m.insert(rk.clone(), v.clone());
                });
            }
        }
        for k in [K::G, K::I, K::O] {
            let types: [u8; 4] = $unk_types(k);
            for (t, key, val) in [
                (types[0], vec![], b"unknown".to_vec()),
                (types[0], vec![], b"unknown other".to_vec()),
                (types[0], vec![1u8, 2, 3], vec![]),
                (types[1], vec![0xaa; 33], vec![1; 4]),
                (types[2], vec![], vec![0; 64]),
                (types[3], vec![7; 252], vec![3; 65_535]),
                (types[3], vec![8; 70_000], vec![]),
            ] {
                let rk = raw::Key { type_value: t, key: key.clone() };
                let v = val.clone();
                b.add(k, "unknown", kv(t, key, val), move |q, i| {
                    let m = match k {
                        K::G => &mut glob(q).$unk,
                        K::I => &mut q.inputs[i].$unk,
                        K::O => &mut q.outputs[i].$unk,
                    };
                    m.insert(rk.clone(), v.clone());
                });
            }
        }
    }};
}

/// Full binary trees with `n` leaves, as the depths of the leaves in order.
fn tree_shapes(n: usize, d: u8) -> Vec<Vec<u8>> {
    if n == 1 {
        return vec![vec![d]];
    }
    let mut out = vec![];
    for l in 1..n {
        for a in tree_shapes(l, d + 1) {
            for b in tree_shapes(n - l, d + 1) {
                out.push([a.clone(), b].concat());
            }
        }
    }
    out
}
fn powers() -> Vec<u32> {
    let mut v = vec![];
    for b in 0..32 {
        let p = 1u32 << b;
        v.extend([p.wrapping_sub(1), p, p.wrapping_add(1)]);
    }
    v.extend([499_999_999, 500_000_000, 500_000_001, u32::MAX - 1, u32::MAX]);
    v.sort();
    v.dedup();
    v
}
const LENS: [usize; 23] = [0, 1, 2, 20, 22, 32, 33, 34, 35, 64, 75, 76, 77, 78, 79, 252, 253, 254, 255, 256, 520, 521, 10_001];
fn paths() -> Vec<Vec<u32>> {
    let b = [0u32, 1, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_ffff];
    let mut v = vec![vec![]];
    for x in b {
        v.push(vec![x]);
        for y in b {
            v.push(vec![x, y]);
        }
    }
    for n in [3usize, 4, 5, 6, 7, 8, 15, 16, 62, 63, 64, 254, 255, 256] {
        v.push((0..n).map(|i| b[i % 6]).collect());
    }
    v
}

/// Products of boundary values for every field, each explored alone and among all other fields.
macro_rules! extra {
    ($b:ident, $P:ty, $glob:expr, $bip32:ident, $xpub:ident, $prop:ident, $unk:ident, $raw:path, $sht:ty) => {{
        use $raw as raw;
        let b: &mut B<$P> = &mut $b;
        let glob = $glob;
        let ver = <$P>::VER;
        b.2 = true;
        // ---- key origins
        for (n, p) in paths().into_iter().enumerate() {
            for fp in [[0u8; 4], [1, 2, 3, 4], [0xff; 4]] {
                let k = 1 + n as u32 % 5;
                let (p1, p2, p3) = (p.clone(), p.clone(), p.clone());
                b.add(K::G, "xpubs", kv(1, xpub(k).encode(), ks_bytes(fp, &p)), move |q, _| {
                    glob(q).$xpub.insert(xpub(k), ks(fp, &p1));
                });
                b.add(K::I, "bip32_derivation", kv(6, spk_(k).serialize(), ks_bytes(fp, &p)), move |q, i| {
                    q.inputs[i].$bip32.insert(spk_(k), ks(fp, &p2));
                });
                b.add(K::O, "bip32_derivation", kv(2, spk_(k).serialize(), ks_bytes(fp, &p)), move |q, i| {
                    q.outputs[i].$bip32.insert(spk_(k), ks(fp, &p3));
                });
                for nl in [0usize, 1, 2, 3] {
                    // The same hash may occur twice.
                    let leaves: Vec<TapLeafHash> = [2u8, 1, 2][..nl].iter().map(|l| leaf_hash(*l)).collect();
                    let raw = origin_bytes(&leaves, fp, &p);
                    let (l1, l2, p1, p2) = (leaves.clone(), leaves, p.clone(), p.clone());
                    b.add(K::I, "tap_key_origins", kv(0x16, xonly(k).serialize(), raw.clone()), move |q, i| {
                        q.inputs[i].tap_key_origins.insert(xonly(k), (l1.clone(), ks(fp, &p1)));
                    });
                    b.add(K::O, "tap_key_origins", kv(7, xonly(k).serialize(), raw), move |q, i| {
                        q.outputs[i].tap_key_origins.insert(xonly(k), (l2.clone(), ks(fp, &p2)));
                    });
                }
            }
        }
        for nl in [252usize, 253, 254] {
            let leaves: Vec<TapLeafHash> = (0..nl).map(|l| leaf_hash(l as u8 % 12)).collect();
            let raw = origin_bytes(&leaves, [9; 4], &[1]);
            let (l1, l2) = (leaves.clone(), leaves);
            b.add(K::I, "tap_key_origins", kv(0x16, xonly(1).serialize(), raw.clone()), move |q, i| {
                q.inputs[i].tap_key_origins.insert(xonly(1), (l1.clone(), ks([9; 4], &[1])));
            });
            b.add(K::O, "tap_key_origins", kv(7, xonly(1).serialize(), raw), move |q, i| {
                q.outputs[i].tap_key_origins.insert(xonly(1), (l2.clone(), ks([9; 4], &[1])));
            });
        }
        for network in [NetworkKind::Main, NetworkKind::Test] {
            for depth in [0u8, 1, 2, 255] {
                for child in [0u32, 1, 0x8000_0000, 0xffff_ffff] {
                    for pfp in [[0u8; 4], [7; 4]] {
                        let x = bip32::Xpub { network, depth, child_number: child.into(), parent_fingerprint: pfp.into(), ..xpub(3) };
                        b.add(K::G, "xpubs", kv(1, x.encode(), ks_bytes(pfp, &[child])), move |q, _| {
                            glob(q).$xpub.insert(x, ks(pfp, &[child]));
                        });
                    }
                }
            }
        }
        // ---- transactions and outputs
        for version in [i32::MIN, -1, 0, 1, 2, 3, i32::MAX] {
            for lt in [0u32, 1, 499_999_999, 500_000_000, u32::MAX] {
                for (ni, no) in [(0, 1), (1, 0), (1, 1), (2, 2), (1, 253)] {
                    for wit in 0..3usize {
                        if no == 253 && (wit != 1 || lt != 1) {
                            continue;
                        }
                        let mut tx = base_tx(ni, no);
                        tx.version = transaction::Version(version);
                        tx.lock_time = absolute::LockTime::from_consensus(lt);
                        if let Some(i) = tx.input.last_mut() {
                            i.script_sig = ScriptBuf::from_bytes(vec![0x51; wit]);
                            i.witness = Witness::from_slice(&vec![vec![3u8; 3]; wit]);
                            i.sequence = Sequence(lt ^ 5);
                        }
                        b.add(K::I, "non_witness_utxo", kv(0, [], cser(&tx)), move |q, i| q.inputs[i].non_witness_utxo = Some(tx.clone()));
                    }
                }
            }
        }
        for (v, l) in (0..64).map(|s| (1u64 << s, s)).chain(LENS.map(|l| (5, l))) {
            let o = txo(v, ScriptBuf::from_bytes(vec![0x52; l]));
            b.add(K::I, "witness_utxo", kv(1, [], cser(&o)), move |q, i| q.inputs[i].witness_utxo = Some(o.clone()));
        }
        // ---- signatures
        {
            use EcdsaSighashType::*;
            let c = |f: &[u8; 32], s: &[u8; 32]| secp256k1::ecdsa::Signature::from_compact(&[*f, *s].concat()).unwrap();
            let one = { let mut x = [0u8; 32]; x[31] = 1; x };
            let top = { let mut x = [0u8; 32]; x[0] = 0x80; x };
            let mut sigs: Vec<_> = (1..8).map(|i| ecdsa_sig(i, All).signature).collect();
            sigs.extend([c(&one, &one), c(&top, &one), c(&one, &top), c(&top, &top)]);
            for k in [pk(1), pk(2), pk(3), pk(4), upk(1), upk(2)] {
                for ty in [All, None, Single, AllPlusAnyoneCanPay, NonePlusAnyoneCanPay, SinglePlusAnyoneCanPay] {
                    for signature in &sigs {
                        let s = ecdsa::Signature { signature: *signature, sighash_type: ty };
                        b.add(K::I, "partial_sigs", kv(2, k.to_bytes(), ecdsa_bytes(&s)), move |q, i| {
                            q.inputs[i].partial_sigs.insert(k, s);
                        });
                    }
                }
            }
        }
        {
            use TapSighashType::*;
            for ty in [Default, All, None, Single, AllPlusAnyoneCanPay, NonePlusAnyoneCanPay, SinglePlusAnyoneCanPay] {
                for n in 1..4u32 {
                    let s = tap_sig(n, ty);
                    b.add(K::I, "tap_key_sig", kv(0x13, [], schnorr_bytes(&s)), move |q, i| q.inputs[i].tap_key_sig = Some(s));
                    for (k, l) in [(1u32, 1u8), (2, 3), (3, 2)] {
                        let mut kd = xonly(k).serialize().to_vec();
                        kd.extend(leaf_hash(l).to_byte_array());
                        b.add(K::I, "tap_script_sigs", kv(0x14, kd, schnorr_bytes(&s)), move |q, i| {
                            q.inputs[i].tap_script_sigs.insert((xonly(k), leaf_hash(l)), s);
                        });
                    }
                }
            }
        }
        for n in (0..=0xffu32).chain(powers().into_iter().filter(|n| *n > 0xff)) {
            b.add(K::I, "sighash_type", kv(3, [], n.to_le_bytes()), move |q, i| {
                q.inputs[i].sighash_type = Some(<$sht>::from_u32(n))
            });
        }
        // ---- scripts, witnesses, preimages
        for l in LENS {
            for x in [0u8, 0x51, 0xff] {
                let s = ScriptBuf::from_bytes(vec![x; l]);
                let (s1, s2, s3, s4, s5) = (s.clone(), s.clone(), s.clone(), s.clone(), s.clone());
                b.add(K::I, "redeem_script", kv(4, [], s.to_bytes()), move |q, i| q.inputs[i].redeem_script = Some(s1.clone()));
                b.add(K::I, "witness_script", kv(5, [], s.to_bytes()), move |q, i| q.inputs[i].witness_script = Some(s2.clone()));
                b.add(K::I, "final_script_sig", kv(7, [], s.to_bytes()), move |q, i| q.inputs[i].final_script_sig = Some(s3.clone()));
                b.add(K::O, "redeem_script", kv(0, [], s.to_bytes()), move |q, i| q.outputs[i].redeem_script = Some(s4.clone()));
                b.add(K::O, "witness_script", kv(1, [], s.to_bytes()), move |q, i| q.outputs[i].witness_script = Some(s5.clone()));
            }
        }
        {
            let e = [0usize, 1, 2, 252, 253];
            let mut ws: Vec<Vec<usize>> = vec![vec![0; 252], vec![1; 253], vec![0, 70_000]];
            for x in e {
                ws.push(vec![x]);
                for y in e {
                    ws.push(vec![x, y]);
                    for z in e {
                        ws.push(vec![x, y, z]);
                    }
                }
            }
            for w in ws {
                let w = Witness::from_slice(&w.iter().enumerate().map(|(i, l)| vec![i as u8; *l]).collect::<Vec<_>>());
                b.add(K::I, "final_script_witness", kv(8, [], cser(&w)), move |q, i| q.inputs[i].final_script_witness = Some(w.clone()));
            }
        }
        for l in (0..=65).chain(LENS) {
            let pre = vec![l as u8 ^ 0x5a; l];
            let (a1, a2, a3, a4) = (pre.clone(), pre.clone(), pre.clone(), pre.clone());
            b.add(K::I, "ripemd160_preimages", kv(0x0a, h_ripemd(&pre).to_byte_array(), pre.clone()), move |q, i| {
                q.inputs[i].ripemd160_preimages.insert(h_ripemd(&a1), a1.clone());
            });
            b.add(K::I, "sha256_preimages", kv(0x0b, h_sha256(&pre).to_byte_array(), pre.clone()), move |q, i| {
                q.inputs[i].sha256_preimages.insert(h_sha256(&a2), a2.clone());
            });
            b.add(K::I, "hash160_preimages", kv(0x0c, h_hash160(&pre).to_byte_array(), pre.clone()), move |q, i| {
                q.inputs[i].hash160_preimages.insert(h_hash160(&a3), a3.clone());
            });
            b.add(K::I, "hash256_preimages", kv(0x0d, h_hash256(&pre).to_byte_array(), pre.clone()), move |q, i| {
                q.inputs[i].hash256_preimages.insert(h_hash256(&a4), a4.clone());
            });
        }
        // ---- taproot
        let mut leaves: Vec<(usize, u8, bool, usize)> = vec![];
        for lv in (0..=254u8).step_by(2).filter(|l| *l != 0x50) {
            leaves.extend([(1, lv, false, 3), (2, lv, true, 1)]);
        }
        leaves.extend((0..=128).flat_map(|d| [(d, 0xc0, false, 3), (d, 0xc2, true, 0)]));
        leaves.extend(LENS.map(|l| (2, 0xc0, l % 2 == 1, l)));
        for (depth, lv, odd, l) in leaves {
            let sc = ScriptBuf::from_bytes(vec![0x53; l]);
            let mut v = sc.to_bytes();
            v.push(lv);
            let par = if odd { secp256k1::Parity::Odd } else { secp256k1::Parity::Even };
            b.add(K::I, "tap_scripts", kv(0x15, control_bytes(4, depth, lv, odd), v), move |q, i| {
                let l = LeafVersion::from_consensus(lv).unwrap();
                q.inputs[i].tap_scripts.insert(control(4, depth, l, par), (sc.clone(), l));
            });
        }
        for k in 1..12u32 {
            b.add(K::I, "tap_internal_key", kv(0x17, [], xonly(k).serialize()), move |q, i| q.inputs[i].tap_internal_key = Some(xonly(k)));
            b.add(K::O, "tap_internal_key", kv(5, [], xonly(k).serialize()), move |q, i| q.outputs[i].tap_internal_key = Some(xonly(k)));
        }
        let mut shapes: Vec<(Vec<u8>, usize)> = (1..=5).flat_map(|n| tree_shapes(n, 0)).map(|s| (s, 3)).collect();
        shapes.push((tree_shapes(2, 0).remove(0), 4));
        shapes.push(((1..=128).chain([128]).collect(), 0));
        shapes.push(([128].into_iter().chain((1..=128).rev()).collect(), 1));
        shapes.push((vec![7; 128], 2));
        shapes.extend(LENS.map(|l| (vec![0], l)));
        for (shape, l) in shapes {
            for lv in [0xc0u8, 0xc2, 0x66] {
                let mut t = TaprootBuilder::new();
                let mut raw = vec![];
                for (n, d) in shape.iter().enumerate() {
                    // Leaves with and without equal neighbours.
                    let mut s = vec![0x51; l];
                    if let Some(x) = s.first_mut() {
                        *x = 0x51 + n as u8 % 9;
                    }
                    let lv = if n % 3 == 1 { 0xc0 } else { lv };
                    t = t.add_leaf_with_ver(*d, ScriptBuf::from_bytes(s.clone()), LeafVersion::from_consensus(lv).unwrap()).unwrap();
                    raw.extend([*d, lv]);
                    raw.extend(cs(l as u64));
                    raw.extend(s);
                }
                let t = TapTree::try_from(t).unwrap();
                b.add(K::O, "tap_tree", kv(6, [], raw), move |q, i| q.outputs[i].tap_tree = Some(t.clone()));
            }
        }
        // ---- proprietary and unknown, every map
        for pl in [0usize, 1, 2, 252, 253] {
            for sub in [0u8, 1, 0x7f, 0xfc, 0xfd, 0xfe, 0xff] {
                for kl in [0usize, 1, 2, 252, 253, 1024] {
                    for vl in [0usize, 1, 252, 253] {
                        for k in [K::G, K::I, K::O] {
                            let rk = raw::ProprietaryKey { prefix: vec![0xfd; pl], subtype: sub, key: vec![0; kl] };
                            b.add(k, "proprietary", kv(0xfc, prop_kd(&rk.prefix, sub, &rk.key), vec![0xff; vl]), move |q, i| {
                                let m = match k {
                                    K::G => &mut glob(q).$prop,
                                    K::I => &mut q.inputs[i].$prop,
                                    K::O => &mut q.outputs[i].$prop,
                                };
                                m.insert(rk.clone(), vec![0xff; vl]);
                            });
                        }
                    }
                }
            }
        }
        for k in [K::G, K::I, K::O] {
            for t in (0..=255u8).filter(|t| unknown_type(ver, k, *t)) {
                for (kl, vl) in [(0usize, 0usize), (0, 3), (1, 0), (33, 1)] {
                    let rk = raw::Key { type_value: t, key: vec![t; kl] };
                    b.add(k, "unknown", kv(t, vec![t; kl], vec![0; vl]), move |q, i| {
                        let m = match k {
                            K::G => &mut glob(q).$unk,
                            K::I => &mut q.inputs[i].$unk,
                            K::O => &mut q.outputs[i].$unk,
                        };
                        m.insert(rk.clone(), vec![0; vl]);
                    });
                }
            }
        }
        b.2 = false;
    }};
}
/// Types no field of this version uses (BIP-375 types and proofs of reserve left out in version 0).
fn unknown_type(ver: Ver, k: K, t: u8) -> bool {
    match (k, ver) {
        (K::G, Ver::V0) => t > 8 && t != 0xfb && t != 0xfc,
        (K::G, Ver::V2) => t > 8 && t != 0xfb && t != 0xfc,
        (K::I, _) => t == 0x19 || t == 0x1a || t == 0x1b || t == 0x1c || (t > 0x1e && t != 0xfc),
        (K::O, _) => t == 8 || (t > 0x0a && t != 0xfc),
    }
}

fn glob_v0(q: &mut v0::Psbt) -> &mut v0::Psbt { q }
fn glob_v2(q: &mut v2::Psbt) -> &mut v2::Global { &mut q.global }

fn v0_atoms() -> Vec<Atom<v0::Psbt>> {
    use bitcoin::hashes::Hash;
    let mut b: B<v0::Psbt> = B(vec![], Default::default(), false);
    shared!(
        b, v0::Psbt, glob_v0,
        bip32_derivation, xpub, proprietary, unknown, psbt_v2::v0::bitcoin::raw,
        psbt_v2::PsbtSighashType,
        |k: K| match k {
            K::G => [0x0f, 0x80, 0xff, 0xfa],
            K::I => [0x09, 0x80, 0xff, 0x19],
            K::O => [0x08, 0x80, 0xff, 0x3f],
        }
    );
    extra!(b, v0::Psbt, glob_v0, bip32_derivation, xpub, proprietary, unknown, psbt_v2::v0::bitcoin::raw, psbt_v2::PsbtSighashType);
    b.0
}

fn v2_atoms() -> Vec<Atom<v2::Psbt>> {
    use bitcoin::hashes::Hash;
    let mut b: B<v2::Psbt> = B(vec![], Default::default(), false);
    // Fields of version 2, first so that "all fields" selections take their ordinary values.
    for n in [2i32, 1, 3, i32::MAX, -1, 0] {
        b.add(K::G, "tx_version", kv(2, [], n.to_le_bytes()), move |q, _| q.global.tx_version = transaction::Version(n));
    }
    for n in [0u32, 1, 499_999_999, 500_000_000, u32::MAX] {
        b.add(K::G, "fallback_lock_time", kv(3, [], n.to_le_bytes()), move |q, _| {
            q.global.fallback_lock_time = Some(absolute::LockTime::from_consensus(n))
        });
    }
    for n in [7u8, 0, 1, 2, 4, 0xff] {
        b.add(K::G, "tx_modifiable_flags", kv(6, [], [n]), move |q, _| q.global.tx_modifiable_flags = n);
    }
    for i in [0u32, 1000] {
        b.add(K::I, "previous_txid", kv(0x0e, [], txid(i).to_byte_array()), move |q, ix| q.inputs[ix].previous_txid = txid(i));
    }
    for n in [0u32, u32::MAX] {
        b.add(K::I, "spent_output_index", kv(0x0f, [], n.to_le_bytes()), move |q, i| q.inputs[i].spent_output_index = n);
    }
    for n in [0xffff_fffeu32, 0, u32::MAX, 144] {
        b.add(K::I, "sequence", kv(0x10, [], n.to_le_bytes()), move |q, i| q.inputs[i].sequence = Some(Sequence(n)));
    }
    for n in [500_000_000u32, 500_000_001, u32::MAX] {
        b.add(K::I, "min_time", kv(0x11, [], n.to_le_bytes()), move |q, i| {
            q.inputs[i].min_time = Some(absolute::Time::from_consensus(n).unwrap())
        });
    }
    for n in [1u32, 2, 499_999_999] {
        b.add(K::I, "min_height", kv(0x12, [], n.to_le_bytes()), move |q, i| {
            q.inputs[i].min_height = Some(absolute::Height::from_consensus(n).unwrap())
        });
    }
    for n in [1u64, 0, 21_000_000 * 100_000_000, u64::MAX] {
        b.add(K::O, "amount", kv(3, [], n.to_le_bytes()), move |q, i| q.outputs[i].amount = Amount::from_sat(n));
    }
    for s in [script(1), ScriptBuf::new(), ScriptBuf::from_bytes(vec![0x6a; 300])] {
        b.add(K::O, "script_pubkey", kv(4, [], s.to_bytes()), move |q, i| q.outputs[i].script_pubkey = s.clone());
    }
    #[cfg(feature = "sp")]
    for k in [K::G, K::I] {
        let t = if k == K::G { 0x07 } else { 0x1d };
        for (scan, share) in [(1u32, 11u32), (1, 12), (2, 13)] {
            b.add(k, "sp_ecdh_shares", kv(t, spk_(scan).serialize(), spk_(share).serialize()), move |q, i| {
                let m = if k == K::G { &mut q.global.sp_ecdh_shares } else { &mut q.inputs[i].sp_ecdh_shares };
                m.insert(cpk(scan), cpk(share));
            });
        }
        for (scan, n) in [(1u32, 1u8), (1, 2), (2, 0)] {
            b.add(k, "sp_dleq_proofs", kv(t + 1, spk_(scan).serialize(), [n; 64]), move |q, i| {
                let m = if k == K::G { &mut q.global.sp_dleq_proofs } else { &mut q.inputs[i].sp_dleq_proofs };
                m.insert(cpk(scan), v2::DleqProof([n; 64]));
            });
        }
    }
    #[cfg(feature = "sp")]
    for (a, c) in [(1u32, 2u32), (3, 4)] {
        let mut v = spk_(a).serialize().to_vec();
        v.extend(spk_(c).serialize());
        b.add(K::O, "sp_v0_info", kv(9, [], v.clone()), move |q, i| q.outputs[i].sp_v0_info = Some(v.clone()));
    }
    #[cfg(feature = "sp")]
    for n in [0u32, 0x0102_0304, u32::MAX] {
        b.add(K::O, "sp_v0_label", kv(10, [], n.to_le_bytes()), move |q, i| q.outputs[i].sp_v0_label = Some(n));
    }
    shared!(
        b, v2::Psbt, glob_v2,
        bip32_derivations, xpubs, proprietaries, unknowns, psbt_v2::raw,
        psbt_v2::PsbtSighashType,
        |k: K| match k {
            K::G => [0x0f, 0x80, 0xff, 0xfa],
            K::I => [0x09, 0x80, 0xff, 0x19],
            K::O => [0x08, 0x80, 0xff, 0x3f],
        }
    );
    extra!(b, v2::Psbt, glob_v2, bip32_derivations, xpubs, proprietaries, unknowns, psbt_v2::raw, psbt_v2::PsbtSighashType);
    b.2 = true;
    for n in powers() {
        b.add(K::G, "tx_version", kv(2, [], n.to_le_bytes()), move |q, _| q.global.tx_version = transaction::Version(n as i32));
        b.add(K::G, "fallback_lock_time", kv(3, [], n.to_le_bytes()), move |q, _| {
            q.global.fallback_lock_time = Some(absolute::LockTime::from_consensus(n))
        });
        b.add(K::I, "spent_output_index", kv(0x0f, [], n.to_le_bytes()), move |q, i| q.inputs[i].spent_output_index = n);
        b.add(K::I, "sequence", kv(0x10, [], n.to_le_bytes()), move |q, i| q.inputs[i].sequence = Some(Sequence(n)));
        if let Ok(t) = absolute::Time::from_consensus(n) {
            b.add(K::I, "min_time", kv(0x11, [], n.to_le_bytes()), move |q, i| q.inputs[i].min_time = Some(t));
        } else if n > 0 {
            let h = absolute::Height::from_consensus(n).unwrap();
            b.add(K::I, "min_height", kv(0x12, [], n.to_le_bytes()), move |q, i| q.inputs[i].min_height = Some(h));
        }
        #[cfg(feature = "sp")]
        b.add(K::O, "sp_v0_label", kv(10, [], n.to_le_bytes()), move |q, i| q.outputs[i].sp_v0_label = Some(n));
    }
    for n in 0..=255u8 {
        b.add(K::G, "tx_modifiable_flags", kv(6, [], [n]), move |q, _| q.global.tx_modifiable_flags = n);
        b.add(K::I, "previous_txid", kv(0x0e, [], [n; 32]), move |q, ix| q.inputs[ix].previous_txid = Txid::from_byte_array([n; 32]));
    }
    for s in 0..64 {
        for n in [(1u64 << s).wrapping_sub(1), 1 << s, (1 << s) + 1] {
            b.add(K::O, "amount", kv(3, [], n.to_le_bytes()), move |q, i| q.outputs[i].amount = Amount::from_sat(n));
        }
    }
    for l in LENS {
        for x in [0u8, 0x51, 0xff] {
            let s = ScriptBuf::from_bytes(vec![x; l]);
            b.add(K::O, "script_pubkey", kv(4, [], s.to_bytes()), move |q, i| q.outputs[i].script_pubkey = s.clone());
        }
    }
    #[cfg(feature = "sp")]
    for k in [K::G, K::I] {
        let t = if k == K::G { 0x07 } else { 0x1d };
        for scan in 1..6u32 {
            for share in 11..14u32 {
                b.add(k, "sp_ecdh_shares", kv(t, spk_(scan).serialize(), spk_(share).serialize()), move |q, i| {
                    let m = if k == K::G { &mut q.global.sp_ecdh_shares } else { &mut q.inputs[i].sp_ecdh_shares };
                    m.insert(cpk(scan), cpk(share));
                });
                b.add(k, "sp_dleq_proofs", kv(t + 1, spk_(scan).serialize(), [share as u8; 64]), move |q, i| {
                    let m = if k == K::G { &mut q.global.sp_dleq_proofs } else { &mut q.inputs[i].sp_dleq_proofs };
                    m.insert(cpk(scan), v2::DleqProof([share as u8; 64]));
                });
            }
        }
    }
    b.0
}
