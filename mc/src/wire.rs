//! An independent encoder and recogniser for the PSBT wire format: the reference model of the parsers.
//!
//! The recogniser works from rule tables written from BIP-174, 370, 371 and 375. It uses rust-bitcoin and
//! libsecp256k1 (dependencies, not code under test) to decide whether a value is a public key, signature,
//! transaction, witness or taproot control block.
use crate::util::*;
use bitcoin::hashes::Hash;
use bitcoin::*;
use std::collections::BTreeSet;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Kv { pub t: u8, pub kd: Vec<u8>, pub v: Vec<u8> }
pub fn kv(t: u8, kd: impl Into<Vec<u8>>, v: impl Into<Vec<u8>>) -> Kv { Kv { t, kd: kd.into(), v: v.into() } }

pub type WMap = Vec<Kv>;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct WPsbt { pub g: WMap, pub i: Vec<WMap>, pub o: Vec<WMap> }

pub fn enc_kv(p: &Kv, out: &mut Vec<u8>) {
    out.extend(cs(p.kd.len() as u64 + 1));
    out.push(p.t);
    out.extend(&p.kd);
    out.extend(cs(p.v.len() as u64));
    out.extend(&p.v);
}
pub fn enc_maps<'a>(maps: impl Iterator<Item = &'a WMap>) -> Vec<u8> {
    let mut b = b"psbt\xff".to_vec();
    for m in maps {
        for p in m {
            enc_kv(p, &mut b);
        }
        b.push(0);
    }
    b
}
impl WPsbt {
    pub fn maps(&self) -> impl Iterator<Item = &WMap> {
        std::iter::once(&self.g).chain(self.i.iter()).chain(self.o.iter())
    }
    pub fn bytes(&self) -> Vec<u8> { enc_maps(self.maps()) }
    /// Maps in order, pairs sorted: equal for two byte strings that hold the same pairs.
    pub fn canon(&self) -> Vec<Vec<Kv>> {
        self.maps()
            .map(|m| {
                let mut m = m.clone();
                m.sort();
                m
            })
            .collect()
    }
    pub fn map_mut(&mut self, ix: usize) -> &mut WMap {
        if ix == 0 {
            &mut self.g
        } else if ix <= self.i.len() {
            &mut self.i[ix - 1]
        } else {
            let n = self.i.len();
            &mut self.o[ix - 1 - n]
        }
    }
    pub fn n_maps(&self) -> usize { 1 + self.i.len() + self.o.len() }
    pub fn kind(&self, ix: usize) -> K {
        if ix == 0 {
            K::G
        } else if ix <= self.i.len() {
            K::I
        } else {
            K::O
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum K { G, I, O }

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ver { V0, V2 }

/// Splits bytes after the magic into maps; `None` if the framing is broken.
pub fn frame(bytes: &[u8]) -> Option<Vec<WMap>> {
    let mut b = bytes.strip_prefix(b"psbt\xff")?;
    let mut maps = vec![];
    while !b.is_empty() {
        let mut m = vec![];
        loop {
            let (kl, n) = read_cs(b)?;
            b = &b[n..];
            if kl == 0 {
                break;
            }
            if kl as u128 > b.len() as u128 {
                return None;
            }
            let key = &b[..kl as usize];
            b = &b[kl as usize..];
            let (vl, n) = read_cs(b)?;
            b = &b[n..];
            if vl as u128 > b.len() as u128 {
                return None;
            }
            m.push(Kv { t: key[0], kd: key[1..].to_vec(), v: b[..vl as usize].to_vec() });
            b = &b[vl as usize..];
        }
        maps.push(m);
    }
    Some(maps)
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum V { Ok, Bad(&'static str), Any(&'static str) }
use V::*;

impl V {
    fn and(self, o: V) -> V {
        match (&self, &o) {
            (Bad(_), _) => self,
            (_, Bad(_)) => o,
            (Any(_), _) => self,
            _ => o,
        }
    }
    fn req(b: bool, why: &'static str) -> V { if b { Ok } else { Bad(why) } }
}

fn le32(v: &[u8]) -> u32 { u32::from_le_bytes(v.try_into().unwrap()) }

fn pubkey(b: &[u8]) -> bool {
    (b.len() == 33 && (b[0] == 2 || b[0] == 3) || b.len() == 65 && b[0] == 4)
        && secp256k1::PublicKey::from_slice(b).is_ok()
}
fn pubkey_v(b: &[u8]) -> V {
    if b.len() == 65 && (b[0] == 6 || b[0] == 7) {
        return Any("hybrid public key");
    }
    V::req(pubkey(b), "public key")
}
fn secp_pubkey_v(b: &[u8]) -> V {
    if b.len() == 65 {
        return Any("uncompressed key of a derivation");
    }
    V::req(pubkey(b), "public key")
}
fn xonly_ok(b: &[u8]) -> bool { b.len() == 32 && secp256k1::XOnlyPublicKey::from_slice(b).is_ok() }
fn path_ok(b: &[u8]) -> bool { b.len() >= 4 && b.len() % 4 == 0 }
fn ecdsa_v(b: &[u8]) -> V {
    let Some((ty, der)) = b.split_last() else { return Bad("empty signature") };
    match secp256k1::ecdsa::Signature::from_der(der) {
        Err(_) => return Bad("DER signature"),
        // Numbers beyond the group order read as zero.
        Result::Ok(s) if &s.serialize_der()[..] != der => return Any("DER signature out of range"),
        Result::Ok(_) => {}
    }
    if matches!(ty, 1 | 2 | 3 | 0x81 | 0x82 | 0x83) { Ok } else { Any("non-standard sighash byte") }
}
fn schnorr_v(b: &[u8]) -> V {
    match b.len() {
        64 => Ok,
        65 => match b[64] {
            1 | 2 | 3 | 0x81 | 0x82 | 0x83 => Ok,
            0 => Any("explicit default sighash byte"),
            _ => Bad("taproot sighash byte"),
        },
        _ => Bad("schnorr signature length"),
    }
}
fn tx_ok(b: &[u8]) -> bool { consensus::deserialize::<Transaction>(b).is_ok() }
fn leaf_ver_ok(v: u8) -> bool { v != 0x50 && v & 1 == 0 }
fn tap_tree_ok(b: &[u8]) -> bool {
    // {depth, leaf version, compact size script length, script}*, in depth first order, forming a full tree.
    let mut rest = b;
    let mut open: Vec<u8> = vec![]; // depths of subtrees waiting for their sibling
    let mut any = false;
    let mut closed = false;
    while !rest.is_empty() {
        if rest.len() < 2 || closed {
            return false;
        }
        let (mut d, lv) = (rest[0], rest[1]);
        rest = &rest[2..];
        let Some((n, k)) = read_cs(rest) else { return false };
        if n as u128 > (rest.len() - k) as u128 || !leaf_ver_ok(lv) || d > 128 {
            return false;
        }
        rest = &rest[k + n as usize..];
        any = true;
        if let Some(top) = open.last() {
            if d < *top {
                return false;
            }
        }
        while open.last() == Some(&d) {
            open.pop();
            d -= 1;
        }
        if d == 0 {
            closed = true;
        } else {
            open.push(d);
        }
    }
    any && closed
}
/// The tree with the children of each branch ordered by hash; other bytes unchanged.
pub fn tap_tree_canon(b: &[u8]) -> Vec<u8> {
    use bitcoin::taproot::{LeafVersion, TapNodeHash};
    if !tap_tree_ok(b) {
        return b.to_vec();
    }
    let mut rest = b;
    // (depth, hash, leaves as (depth, bytes after the depth))
    let mut open: Vec<(u8, TapNodeHash, Vec<(u8, Vec<u8>)>)> = vec![];
    while !rest.is_empty() {
        let (d, lv) = (rest[0], rest[1]);
        let (n, k) = read_cs(&rest[2..]).unwrap();
        let end = 2 + k + n as usize;
        let script = Script::from_bytes(&rest[2 + k..end]);
        let h = TapNodeHash::from_script(script, LeafVersion::from_consensus(lv).unwrap());
        let mut node = (d, h, vec![(d, rest[1..end].to_vec())]);
        rest = &rest[end..];
        while open.last().map(|o| o.0) == Some(node.0) {
            let o = open.pop().unwrap();
            let (mut l, r) = if o.1 <= node.1 { (o, node) } else { (node, o) };
            let h = TapNodeHash::from_node_hashes(l.1, r.1);
            l.2.extend(r.2);
            node = (l.0 - 1, h, l.2);
        }
        open.push(node);
    }
    let mut out = vec![];
    for (d, x) in &open[0].2 {
        out.push(*d);
        out.extend(x);
    }
    out
}
fn tap_origin_ok(b: &[u8]) -> bool {
    let Some((n, k)) = read_cs(b) else { return false };
    let need = n as u128 * 32;
    if need > (b.len() - k) as u128 {
        return false;
    }
    path_ok(&b[k + need as usize..])
}
fn prop_v(kd: &[u8]) -> V {
    let Some((n, k)) = read_cs(kd) else { return Bad("proprietary identifier length") };
    if n as u128 > (kd.len() - k) as u128 {
        return Bad("proprietary identifier");
    }
    let rest = &kd[k + n as usize..];
    if rest.is_empty() {
        return Bad("proprietary subtype");
    }
    if rest.len() - 1 > 1024 {
        return Any("proprietary key data beyond the library's limit");
    }
    Ok
}

/// Whether one pair is well formed on its own.
pub fn pair_v(ver: Ver, k: K, p: &Kv) -> V {
    let (t, kd, v) = (p.t, &p.kd[..], &p.v[..]);
    let nokey = V::req(kd.is_empty(), "key data where none belongs");
    let len = |n: usize| V::req(v.len() == n, "value length");
    if t == 0xfc {
        return prop_v(kd);
    }
    match k {
        K::G => match (t, ver) {
            (0x00, Ver::V2) => Bad("unsigned transaction in version 2"),
            (0x00, Ver::V0) => nokey.and(V::req(unsigned_tx(v).is_some(), "unsigned transaction")),
            (0x01, _) => V::req(
                kd.len() == 78 && bip32::Xpub::decode(kd).is_ok() && path_ok(v),
                "xpub pair",
            ),
            (0x02..=0x06, Ver::V0) => Bad("version 2 global field in version 0"),
            (0x02, _) | (0x03, _) => nokey.and(len(4)),
            (0x04, _) | (0x05, _) => nokey.and(match read_cs(v) {
                None => Bad("count"),
                Some((_, n)) if n == v.len() => Ok,
                Some(_) => Any("bytes after a count"),
            }),
            (0x06, _) => nokey.and(len(1)),
            (0x07, Ver::V2) if SP => sp_key(kd).and(sp_key(v)),
            (0x08, Ver::V2) if SP => sp_key(kd).and(len(64)),
            (0x07 | 0x08, Ver::V0) => Any("BIP-375 field in version 0"),
            (0xfb, _) => nokey.and(len(4)).and(if v.len() == 4 {
                V::req(le32(v) == if ver == Ver::V2 { 2 } else { 0 }, "version number")
            } else {
                Ok
            }),
            _ => Ok,
        },
        K::I => match (t, ver) {
            (0x00, _) => nokey.and(V::req(tx_ok(v), "transaction")),
            (0x01, _) => nokey.and(V::req(consensus::deserialize::<TxOut>(v).is_ok(), "output")),
            (0x02, _) => pubkey_v(kd).and(ecdsa_v(v)),
            (0x03, _) => nokey.and(len(4)),
            (0x04, _) | (0x05, _) | (0x07, _) => nokey,
            (0x06, _) => secp_pubkey_v(kd).and(V::req(path_ok(v), "key origin")),
            (0x08, _) => nokey.and(V::req(consensus::deserialize::<Witness>(v).is_ok(), "witness")),
            (0x09, _) => if kd.is_empty() { Ok } else { Any("proof of reserves key data") },
            (0x0a, _) => V::req(kd.len() == 20 && h_ripemd(v).to_byte_array()[..] == *kd, "preimage"),
            (0x0b, _) => V::req(kd.len() == 32 && h_sha256(v).to_byte_array()[..] == *kd, "preimage"),
            (0x0c, _) => V::req(kd.len() == 20 && h_hash160(v).to_byte_array()[..] == *kd, "preimage"),
            (0x0d, _) => V::req(kd.len() == 32 && h_hash256(v).to_byte_array()[..] == *kd, "preimage"),
            (0x0e..=0x12, Ver::V0) => Bad("version 2 input field in version 0"),
            (0x0e, _) => nokey.and(len(32)),
            (0x0f, _) | (0x10, _) => nokey.and(len(4)),
            (0x11, _) => nokey.and(len(4)).and(V::req(v.len() == 4 && le32(v) >= 500_000_000, "time")),
            (0x12, _) => nokey.and(len(4)).and(if v.len() != 4 {
                Bad("height")
            } else if le32(v) == 0 {
                Any("required height of zero")
            } else {
                V::req(le32(v) < 500_000_000, "height")
            }),
            (0x13, _) => nokey.and(schnorr_v(v)),
            (0x14, _) => V::req(kd.len() == 64 && xonly_ok(&kd[..32]), "key and leaf hash").and(schnorr_v(v)),
            (0x15, _) => V::req(
                kd.len() >= 33 && (kd.len() - 33) % 32 == 0 && kd.len() <= 33 + 128 * 32,
                "control block length",
            )
            .and(if kd.len() >= 33 {
                V::req(leaf_ver_ok(kd[0] & 0xfe) && xonly_ok(&kd[1..33]), "control block")
            } else {
                Bad("control block")
            })
            .and(match v.last() {
                None => Bad("leaf version"),
                Some(l) if !leaf_ver_ok(*l) => Bad("leaf version"),
                Some(l) => if !kd.is_empty() && *l == kd[0] & 0xfe { Ok } else { Any("leaf version mismatch") },
            }),
            (0x16, _) => V::req(xonly_ok(kd), "x-only key").and(V::req(tap_origin_ok(v), "taproot origin")),
            (0x17, _) => nokey.and(V::req(xonly_ok(v), "x-only key")),
            (0x18, _) => nokey.and(len(32)),
            (0x1d, Ver::V2) if SP => sp_key(kd).and(sp_key(v)),
            (0x1e, Ver::V2) if SP => sp_key(kd).and(len(64)),
            (0x1d | 0x1e, Ver::V0) => Any("BIP-375 field in version 0"),
            _ => Ok,
        },
        K::O => match (t, ver) {
            (0x00, _) | (0x01, _) => nokey,
            (0x02, _) => secp_pubkey_v(kd).and(V::req(path_ok(v), "key origin")),
            (0x03 | 0x04, Ver::V0) => Bad("version 2 output field in version 0"),
            (0x03, _) => nokey.and(len(8)),
            (0x04, _) => nokey,
            (0x05, _) => nokey.and(V::req(xonly_ok(v), "x-only key")),
            (0x06, _) => nokey.and(V::req(tap_tree_ok(v), "tap tree")),
            (0x07, _) => V::req(xonly_ok(kd), "x-only key").and(V::req(tap_origin_ok(v), "taproot origin")),
            (0x09, Ver::V2) if SP => nokey.and(len(66)),
            (0x0a, Ver::V2) if SP => nokey.and(len(4)),
            (0x09 | 0x0a, Ver::V0) => Any("BIP-375 field in version 0"),
            _ => Ok,
        },
    }
}
/// Whether the library is built with silent payments.
pub const SP: bool = cfg!(feature = "sp");
fn sp_key(b: &[u8]) -> V { V::req(b.len() == 33 && pubkey(b), "33-byte key") }

/// The transaction of a version 0 PSBT: serialised without witnesses, scripts empty, nothing left over.
pub fn unsigned_tx(v: &[u8]) -> Option<Transaction> {
    let mut r = v;
    use consensus::Decodable;
    let tx = Transaction {
        version: Decodable::consensus_decode(&mut r).ok()?,
        input: Decodable::consensus_decode(&mut r).ok()?,
        output: Decodable::consensus_decode(&mut r).ok()?,
        lock_time: Decodable::consensus_decode(&mut r).ok()?,
    };
    if !r.is_empty() || tx.input.iter().any(|i| !i.script_sig.is_empty() || !i.witness.is_empty()) {
        return None;
    }
    Some(tx)
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Verdict { Accept, Reject(&'static str), Either(&'static str) }

/// Decides whether `bytes` is a well-formed PSBT of version `ver`.
pub fn judge(ver: Ver, bytes: &[u8]) -> (Verdict, Option<WPsbt>) {
    use Verdict::*;
    let Some(maps) = frame(bytes) else { return (Reject("framing"), None) };
    let Some(g) = maps.first() else { return (Reject("no global map"), None) };
    let one = |m: &WMap, t: u8| m.iter().find(|p| p.t == t && p.kd.is_empty()).map(|p| p.v.clone());
    let mut verdict = V::Ok;
    let (n_in, n_out);
    match ver {
        Ver::V2 => {
            for (t, why) in [(0xfbu8, "version"), (2, "tx version"), (4, "input count"), (5, "output count")] {
                let _ = why;
                if one(g, t).is_none() {
                    return (Reject("required global field"), None);
                }
            }
            let (Some(a), Some(b)) = (read_cs(&one(g, 4).unwrap()), read_cs(&one(g, 5).unwrap())) else {
                return (Reject("count"), None);
            };
            n_in = a.0;
            n_out = b.0;
        }
        Ver::V0 => {
            let Some(tx) = one(g, 0).and_then(|v| unsigned_tx(&v)) else {
                return (Reject("unsigned transaction"), None);
            };
            n_in = tx.input.len() as u64;
            n_out = tx.output.len() as u64;
        }
    }
    if maps.len() as u128 != 1 + n_in as u128 + n_out as u128 {
        return (Reject("map count"), None);
    }
    let n_in = n_in as usize;
    let w = WPsbt { g: maps[0].clone(), i: maps[1..1 + n_in].to_vec(), o: maps[1 + n_in..].to_vec() };
    for ix in 0..w.n_maps() {
        let k = w.kind(ix);
        let m = &maps[ix];
        let mut seen = BTreeSet::new();
        for p in m {
            if !seen.insert((p.t, &p.kd)) {
                return (Reject("duplicate key"), None);
            }
            verdict = verdict.and(pair_v(ver, k, p));
        }
        let has = |t: u8| m.iter().any(|p| p.t == t);
        if ver == Ver::V2 {
            let r = match k {
                K::G => V::req(!SP || has(7) == has(8), "ECDH and DLEQ pairing"),
                K::I => V::req(has(0x0e) && has(0x0f), "outpoint")
                    .and(V::req(!SP || has(0x1d) == has(0x1e), "ECDH and DLEQ pairing")),
                K::O => V::req(has(3), "amount")
                    .and(V::req(has(4) || SP && has(9), "script"))
                    .and(V::req(!SP || has(9) || !has(10), "label without info")),
            };
            verdict = verdict.and(r);
        }
    }
    match verdict {
        V::Ok => (Accept, Some(w)),
        V::Bad(w) => (Reject(w), None),
        V::Any(y) => (Either(y), Some(w)),
    }
}
