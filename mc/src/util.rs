//! Small helpers that do not use the crate under test.
use std::cell::OnceCell;
pub use psbt_v2::bitcoin;
pub use psbt_v2::miniscript;
use bitcoin::bip32::{DerivationPath, Fingerprint, KeySource, Xpriv, Xpub};
use bitcoin::hashes::{hash160, ripemd160, sha256, sha256d, Hash};
use bitcoin::secp256k1::{self, All, Secp256k1};
use bitcoin::*;

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// One context per thread.
pub fn secp() -> &'static Secp256k1<All> {
    thread_local! { static S: OnceCell<&'static Secp256k1<All>> = const { OnceCell::new() }; }
    S.with(|s| *s.get_or_init(|| Box::leak(Box::new(Secp256k1::new()))))
}

pub fn sha(b: &[u8]) -> [u8; 32] { sha256::Hash::hash(b).to_byte_array() }

pub fn sk(i: u32) -> secp256k1::SecretKey {
    secp256k1::SecretKey::from_slice(&sha(format!("mc key {}", i).as_bytes())).unwrap()
}
pub fn spk_(i: u32) -> secp256k1::PublicKey {
    thread_local! { static C: std::cell::RefCell<std::collections::HashMap<u32, secp256k1::PublicKey>> = Default::default(); }
    C.with(|c| *c.borrow_mut().entry(i).or_insert_with(|| secp256k1::PublicKey::from_secret_key(secp(), &sk(i))))
}
pub fn pk(i: u32) -> PublicKey { PublicKey::new(spk_(i)) }
pub fn upk(i: u32) -> PublicKey { PublicKey::new_uncompressed(spk_(i)) }
pub fn privk(i: u32) -> PrivateKey { PrivateKey::new(sk(i), Network::Bitcoin) }
pub fn cpk(i: u32) -> CompressedPublicKey { CompressedPublicKey(spk_(i)) }
pub fn xonly(i: u32) -> secp256k1::XOnlyPublicKey { spk_(i).x_only_public_key().0 }
pub fn xpriv(i: u32) -> Xpriv {
    Xpriv::new_master(Network::Bitcoin, &sha(format!("mc seed {}", i).as_bytes())).unwrap()
}
pub fn xpub(i: u32) -> Xpub { Xpub::from_priv(secp(), &xpriv(i)) }
pub fn path(v: &[u32]) -> DerivationPath {
    DerivationPath::from(v.iter().map(|x| bip32::ChildNumber::from(*x)).collect::<Vec<_>>())
}
pub fn ks(fp: [u8; 4], v: &[u32]) -> KeySource { (Fingerprint::from(fp), path(v)) }
/// The wire form of a key source, written independently of the crate.
pub fn ks_bytes(fp: [u8; 4], v: &[u32]) -> Vec<u8> {
    let mut o = fp.to_vec();
    for x in v {
        o.extend(x.to_le_bytes());
    }
    o
}

pub fn cs(n: u64) -> Vec<u8> {
    if n < 0xfd {
        vec![n as u8]
    } else if n <= 0xffff {
        let mut v = vec![0xfd];
        v.extend((n as u16).to_le_bytes());
        v
    } else if n <= 0xffff_ffff {
        let mut v = vec![0xfe];
        v.extend((n as u32).to_le_bytes());
        v
    } else {
        let mut v = vec![0xff];
        v.extend(n.to_le_bytes());
        v
    }
}
/// Canonical compact size at the front of `b`: value and length.
pub fn read_cs(b: &[u8]) -> Option<(u64, usize)> {
    let f = *b.first()?;
    let le = |n: usize| -> Option<u64> {
        let s = b.get(1..1 + n)?;
        Some(s.iter().rev().fold(0u64, |a, x| a << 8 | *x as u64))
    };
    match f {
        0xfd => le(2).filter(|v| *v >= 0xfd).map(|v| (v, 3)),
        0xfe => le(4).filter(|v| *v > 0xffff).map(|v| (v, 5)),
        0xff => le(8).filter(|v| *v > 0xffff_ffff).map(|v| (v, 9)),
        v => Some((v as u64, 1)),
    }
}

pub fn txid(i: u32) -> Txid { Txid::from_byte_array(sha(format!("mc txid {}", i).as_bytes())) }
pub fn op(i: u32, vout: u32) -> OutPoint { OutPoint { txid: txid(i), vout } }
pub fn p2wpkh(i: u32) -> ScriptBuf { ScriptBuf::new_p2wpkh(&cpk(i).wpubkey_hash()) }
pub fn p2pkh(i: u32) -> ScriptBuf { ScriptBuf::new_p2pkh(&pk(i).pubkey_hash()) }
pub fn txo(sat: u64, s: ScriptBuf) -> TxOut { TxOut { value: Amount::from_sat(sat), script_pubkey: s } }

pub fn h_ripemd(b: &[u8]) -> ripemd160::Hash { ripemd160::Hash::hash(b) }
pub fn h_sha256(b: &[u8]) -> sha256::Hash { sha256::Hash::hash(b) }
pub fn h_hash160(b: &[u8]) -> hash160::Hash { hash160::Hash::hash(b) }
pub fn h_hash256(b: &[u8]) -> sha256d::Hash { sha256d::Hash::hash(b) }

/// A previous transaction with `n` outputs, the last of which pays `out`.
pub fn prev_tx(tag: u32, vout: u32, out: TxOut) -> Transaction {
    let mut output: Vec<TxOut> =
        (0..vout).map(|k| txo(1000 + k as u64 + tag as u64 * 10, p2wpkh(900 + k))).collect();
    output.push(out);
    output.push(txo(77, p2pkh(950 + tag)));
    Transaction {
        version: transaction::Version::TWO,
        lock_time: absolute::LockTime::ZERO,
        input: vec![TxIn {
            previous_output: op(5000 + tag, tag),
            script_sig: ScriptBuf::new(),
            sequence: Sequence::MAX,
            witness: Witness::from_slice(&[vec![1u8, 2, 3]]),
        }],
        output,
    }
}

pub fn ecdsa_sig(i: u32, ty: EcdsaSighashType) -> ecdsa::Signature {
    let m = secp256k1::Message::from_digest(sha(format!("mc msg {}", i).as_bytes()));
    ecdsa::Signature { signature: secp().sign_ecdsa(&m, &sk(i)), sighash_type: ty }
}
pub fn tap_sig(i: u32, ty: TapSighashType) -> taproot::Signature {
    let m = secp256k1::Message::from_digest(sha(format!("mc msg {}", i).as_bytes()));
    let kp = secp256k1::Keypair::from_secret_key(secp(), &sk(i));
    taproot::Signature { signature: secp().sign_schnorr_no_aux_rand(&m, &kp), sighash_type: ty }
}

pub fn perms(n: usize) -> Vec<Vec<usize>> {
    fn rec(cur: &mut Vec<usize>, used: &mut Vec<bool>, out: &mut Vec<Vec<usize>>) {
        let n = used.len();
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !used[i] {
                used[i] = true;
                cur.push(i);
                rec(cur, used, out);
                cur.pop();
                used[i] = false;
            }
        }
    }
    let mut o = vec![];
    rec(&mut vec![], &mut vec![false; n], &mut o);
    o
}
