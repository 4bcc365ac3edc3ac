//! F06: the version 0 satisfier answers with the data of its own input.
use crate::fields::v0_from;
use crate::run::*;
use crate::spend::{kpk, ksrc, kx};
use crate::util::*;
use bitcoin::hashes::{hash160, Hash};
use bitcoin::taproot::{ControlBlock, LeafVersion, TapLeafHash, TapNodeHash, TaprootMerkleBranch};
use bitcoin::*;
use miniscript::{hash256, DefiniteDescriptorKey, MiniscriptKey, Satisfier, ToPublicKey};
use psbt_v2::v0;
use psbt_v2::v0::miniscript::PsbtInputSatisfier;
use std::collections::BTreeMap;
use std::str::FromStr;

fn base(n: usize) -> v0::Psbt {
    let input = (0..n as u32).map(|i| TxIn { previous_output: op(i, i), sequence: Sequence::MAX, ..Default::default() }).collect();
    v0_from(Transaction { version: transaction::Version::TWO, lock_time: absolute::LockTime::ZERO, input, output: vec![txo(1000, p2wpkh(1))] }).0
}
fn leaf(n: u8) -> TapLeafHash { TapLeafHash::from_byte_array([n + 1; 32]) }
/// The keys asked for; the first three may have signatures.
fn ekeys() -> Vec<PublicKey> {
    let c = |i| PublicKey::new(kpk(i));
    let u = |i| PublicKey::new_uncompressed(kpk(i));
    vec![c(1), u(1), c(2), u(2), c(3)]
}
fn script(n: u8) -> (ControlBlock, (ScriptBuf, LeafVersion)) {
    let c = ControlBlock {
        leaf_version: LeafVersion::TapScript,
        output_key_parity: if n == 1 { secp256k1::Parity::Odd } else { secp256k1::Parity::Even },
        internal_key: kx(1 + n as u32),
        merkle_branch: TaprootMerkleBranch::try_from((0..n).map(|k| TapNodeHash::from_byte_array([k + 9; 32])).collect::<Vec<_>>()).unwrap(),
    };
    (c, (ScriptBuf::from_bytes(vec![0x51 + n]), LeafVersion::TapScript))
}

/// Everything asked with each kind of key.
trait Key: MiniscriptKey<Sha256 = hashes::sha256::Hash, Hash256 = hash256::Hash, Ripemd160 = hashes::ripemd160::Hash, Hash160 = hash160::Hash> + ToPublicKey {
    /// The form of a key this type can hold.
    fn of(k: PublicKey) -> Option<Self>;
}
impl Key for PublicKey {
    fn of(k: PublicKey) -> Option<Self> { Some(k) }
}
impl Key for secp256k1::XOnlyPublicKey {
    fn of(k: PublicKey) -> Option<Self> { if k.compressed { Some(k.inner.x_only_public_key().0) } else { None } }
}
impl Key for DefiniteDescriptorKey {
    fn of(k: PublicKey) -> Option<Self> { DefiniteDescriptorKey::from_str(&k.to_string()).ok() }
}

fn same<T: PartialEq + std::fmt::Debug>(what: impl Fn() -> String, got: T, want: T) -> Res {
    if got == want { Ok(()) } else { Err(format!("{}: {:?} instead of {:?}", what(), got, want)) }
}

/// Every assignment of one of `n` values to `len` places.
fn tuples(len: usize, n: usize, f: &mut dyn FnMut(&[usize])) {
    let mut v = vec![0; len];
    loop {
        f(&v);
        let Some(p) = v.iter().position(|x| *x + 1 < n) else { return };
        v[..p].fill(0);
        v[p] += 1;
    }
}

fn ecdsa<K: Key>(ctx: &Ctx, p: &v0::Psbt, has: &[usize], name: &str) -> Res {
    for ix in 0..has.len() {
        let s = PsbtInputSatisfier::new(p, ix);
        for (n, k) in ekeys().into_iter().enumerate() {
            let Some(q) = K::of(k) else { continue };
            ctx.step();
            // A key type without the parity asks for the even key.
            let real = q.to_public_key();
            let at = ekeys().iter().position(|x| *x == real);
            let want = at.filter(|n| *n < 3 && has[ix] >> n & 1 == 1).map(|n| esig(ix, n));
            same(|| format!("lookup_ecdsa_sig({} {}) of input {}", name, n, ix), <PsbtInputSatisfier as Satisfier<K>>::lookup_ecdsa_sig(&s, &q), want)?;
        }
        for (n, k) in ekeys().into_iter().enumerate() {
            ctx.step();
            let want = if n < 3 && has[ix] >> n & 1 == 1 { Some((k, esig(ix, n))) } else { None };
            let h = h_hash160(&k.to_bytes());
            same(|| format!("lookup_raw_pkh_ecdsa_sig({}) of input {}", n, ix), <PsbtInputSatisfier as Satisfier<K>>::lookup_raw_pkh_ecdsa_sig(&s, &h), want)?;
        }
    }
    Ok(())
}
const ETYS: [EcdsaSighashType; 3] = [EcdsaSighashType::All, EcdsaSighashType::None, EcdsaSighashType::SinglePlusAnyoneCanPay];
fn esig(ix: usize, n: usize) -> ecdsa::Signature { cached(&ESIGS, (ix * 8 + n) as u32, || ecdsa_sig(600 + (ix * 8 + n) as u32, ETYS[ix % 3])) }
fn tsig(ix: usize, n: usize) -> taproot::Signature {
    let t = [TapSighashType::Default, TapSighashType::All, TapSighashType::SinglePlusAnyoneCanPay][ix % 3];
    cached(&TSIGS, (ix * 8 + n) as u32, || tap_sig(700 + (ix * 8 + n) as u32, t))
}
type Cache<T> = std::thread::LocalKey<std::cell::RefCell<BTreeMap<u32, T>>>;
thread_local! {
    static ESIGS: std::cell::RefCell<BTreeMap<u32, ecdsa::Signature>> = Default::default();
    static TSIGS: std::cell::RefCell<BTreeMap<u32, taproot::Signature>> = Default::default();
}
fn cached<T: Clone>(c: &'static Cache<T>, k: u32, f: impl FnOnce() -> T) -> T { c.with(|c| c.borrow_mut().entry(k).or_insert_with(f).clone()) }

fn leaves<K: Key>(ctx: &Ctx, p: &v0::Psbt, has: &[usize], name: &str) -> Res {
    for ix in 0..has.len() {
        let s = PsbtInputSatisfier::new(p, ix);
        for k in 0..3 {
            for l in 0..3 {
                ctx.steps(2);
                let want = if k < 2 && l < 2 && has[ix] >> (2 * k + l) & 1 == 1 { Some(tsig(ix, 2 * k + l)) } else { None };
                // The two forms of a full key stand for the same x-only key.
                for full in [PublicKey::new(kpk(1 + k as u32)), PublicKey::new(kpk(1 + k as u32).negate(secp()))] {
                    let Some(q) = K::of(full) else { continue };
                    same(|| format!("lookup_tap_leaf_script_sig({} {}, {}) of input {}", name, k, l, ix), <PsbtInputSatisfier as Satisfier<K>>::lookup_tap_leaf_script_sig(&s, &q, &leaf(l as u8)), want)?;
                }
                let x = kx(1 + k as u32);
                let h = (h_hash160(&x.serialize()), leaf(l as u8));
                same(|| format!("lookup_raw_pkh_tap_leaf_script_sig({}, {}) of input {}", k, l, ix), <PsbtInputSatisfier as Satisfier<K>>::lookup_raw_pkh_tap_leaf_script_sig(&s, &h), want.map(|w| (x, w)))?;
            }
        }
    }
    Ok(())
}

/// Whether a script asking for `n` accepts the lock time, by BIP-65.
fn after(n: u32, lock: u32, seq: u32) -> bool { (n < 500_000_000) == (lock < 500_000_000) && n <= lock && seq != u32::MAX }
/// The same for a relative lock, by BIP-68 and BIP-112.
fn older(n: u32, ver: i32, seq: u32) -> bool {
    let m = 0x0040_ffff;
    ver >= 2 && seq >> 31 == 0 && (n & m < 0x40_0000) == (seq & m < 0x40_0000) && n & m <= seq & m
}

pub fn satisfier(ctx: &Ctx) {
    let most = if ctx.thorough { 4 } else { 3 };
    ctx.bound("inputs", format!("1 to {}; 1 to 3 for preimages", most));
    ctx.bound("key types", "public key, x-only key, definite descriptor key");
    let go = |what: &str, per: usize, most: usize, f: &dyn Fn(&Ctx, &[usize]) -> Res| {
        for n in 1..=most {
            tuples(n, per, &mut |v| ctx.case(|| format!("{} {:?}", what, v), |ctx| { ctx.validated(); f(ctx, v) }));
        }
    };
    go("ECDSA signatures", 8, most, &|ctx, v| {
        let mut p = base(v.len());
        for (ix, m) in v.iter().enumerate() {
            for n in (0..3).filter(|n| m >> n & 1 == 1) {
                p.inputs[ix].partial_sigs.insert(ekeys()[n], esig(ix, n));
            }
        }
        ctx.state_h(&("ecdsa", v));
        ecdsa::<PublicKey>(ctx, &p, v, "key")?;
        ecdsa::<secp256k1::XOnlyPublicKey>(ctx, &p, v, "x-only key")?;
        ecdsa::<DefiniteDescriptorKey>(ctx, &p, v, "descriptor key")
    });
    go("leaf signatures", 16, most, &|ctx, v| {
        let mut p = base(v.len());
        for (ix, m) in v.iter().enumerate() {
            for n in (0..4).filter(|n| m >> n & 1 == 1) {
                p.inputs[ix].tap_script_sigs.insert((kx(1 + n as u32 / 2), leaf(n as u8 % 2)), tsig(ix, n));
            }
        }
        ctx.state_h(&("leaf", v));
        leaves::<PublicKey>(ctx, &p, v, "key")?;
        leaves::<secp256k1::XOnlyPublicKey>(ctx, &p, v, "x-only key")?;
        leaves::<DefiniteDescriptorKey>(ctx, &p, v, "descriptor key")
    });
    go("key path, scripts", 16, most, &|ctx, v| {
        let mut p = base(v.len());
        let mut maps = vec![];
        for (ix, m) in v.iter().enumerate() {
            if m & 1 == 1 {
                p.inputs[ix].tap_key_sig = Some(tsig(ix, 4));
            }
            maps.push((0..3u8).filter(|n| m >> (n + 1) & 1 == 1).map(script).collect::<BTreeMap<_, _>>());
            p.inputs[ix].tap_scripts = maps[ix].clone();
        }
        ctx.state_h(&("path", v));
        for (ix, m) in v.iter().enumerate() {
            ctx.steps(2);
            let s = PsbtInputSatisfier::new(&p, ix);
            same(|| format!("lookup_tap_key_spend_sig of input {}", ix), Satisfier::<PublicKey>::lookup_tap_key_spend_sig(&s), if m & 1 == 1 { Some(tsig(ix, 4)) } else { None })?;
            let got = Satisfier::<PublicKey>::lookup_tap_control_block_map(&s).cloned().unwrap_or_default();
            same(|| format!("lookup_tap_control_block_map of input {}", ix), got, maps[ix].clone())?;
        }
        Ok(())
    });
    go("key origins", 8, most, &|ctx, v| {
        let mut p = base(v.len());
        for (ix, m) in v.iter().enumerate() {
            for n in (0..3u32).filter(|n| m >> n & 1 == 1) {
                p.inputs[ix].bip32_derivation.insert(kpk(1 + n), ksrc(1 + n));
            }
        }
        ctx.state_h(&("origin", v));
        for (ix, m) in v.iter().enumerate() {
            let s = PsbtInputSatisfier::new(&p, ix);
            for n in 0..4u32 {
                ctx.step();
                let k = PublicKey::new(kpk(1 + n));
                same(|| format!("lookup_raw_pkh_pk({}) of input {}", n, ix), Satisfier::<PublicKey>::lookup_raw_pkh_pk(&s, &h_hash160(&k.to_bytes())), if n < 3 && m >> n & 1 == 1 { Some(k) } else { None })?;
            }
        }
        Ok(())
    });
    // Two preimages of each kind: none or one of a given length.
    const LENS: [usize; 6] = [0, 1, 31, 32, 33, 64];
    go("preimages", 49, 3, &|ctx, v| {
        let mut p = base(v.len());
        let held = |ix: usize, n: usize, kind: u8| -> Option<Vec<u8>> {
            let c = if n == 0 { v[ix] / 7 } else { v[ix] % 7 };
            c.checked_sub(1).map(|c| vec![kind * 16 + ix as u8 * 4 + n as u8 + 1; LENS[c]])
        };
        // What the hashes are of does not matter to a look-up.
        let name = |n: usize| [n as u8 + 40; 5];
        let (r, s, h, d) = (|n| h_ripemd(&name(n)), |n| h_sha256(&name(n)), |n| h_hash160(&name(n)), |n| h_hash256(&name(n)));
        for ix in 0..v.len() {
            for n in 0..2 {
                let i = &mut p.inputs[ix];
                if let Some(x) = held(ix, n, 0) { i.ripemd160_preimages.insert(r(n), x); }
                if let Some(x) = held(ix, n, 1) { i.sha256_preimages.insert(s(n), x); }
                if let Some(x) = held(ix, n, 2) { i.hash160_preimages.insert(h(n), x); }
                if let Some(x) = held(ix, n, 3) { i.hash256_preimages.insert(d(n), x); }
            }
        }
        ctx.state_h(&("preimage", v));
        for ix in 0..v.len() {
            let sat = PsbtInputSatisfier::new(&p, ix);
            for n in 0..3 {
                ctx.steps(4);
                let want = |kind: u8| -> Option<[u8; 32]> { if n == 2 { None } else { held(ix, n, kind)?.try_into().ok() } };
                let what = |k: &'static str| move || format!("preimage of {} {} of input {}", k, n, ix);
                same(what("RIPEMD160"), Satisfier::<PublicKey>::lookup_ripemd160(&sat, &r(n)), want(0))?;
                same(what("SHA256"), Satisfier::<PublicKey>::lookup_sha256(&sat, &s(n)), want(1))?;
                same(what("HASH160"), Satisfier::<PublicKey>::lookup_hash160(&sat, &h(n)), want(2))?;
                let d = hash256::Hash::from_byte_array(d(n).to_byte_array());
                same(what("HASH256"), Satisfier::<PublicKey>::lookup_hash256(&sat, &d), want(3))?;
            }
        }
        Ok(())
    });
    let locks = [0u32, 1, 2, 100, 0xffff, 0x1_0000, 499_999_998, 499_999_999, 500_000_000, 500_000_001, 0x7fff_ffff, 0x8000_0000, u32::MAX - 1, u32::MAX];
    let seqs = [0u32, 1, 2, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x1_0000, 0x1_0001, 0x40_0000, 0x40_0001, 0x40_8000, 0x40_fffe, 0x40_ffff, 0x41_0001, 0x80_0002, 0x3fff_ffff, 0x7fbf_ffff, 0x7fff_ffff, 0x8000_0000, 0x8000_0002, 0x8040_0002, 0xffff_fffd, 0xffff_fffe, u32::MAX];
    ctx.bound("lock times", format!("{} lock times x {} sequences of each of two inputs x {} asked for", locks.len(), seqs.len(), locks.len()));
    for lock in locks {
        for s0 in seqs {
            ctx.case(|| format!("lock time {:#x} sequence {:#x}", lock, s0), |ctx| {
                let mut p = base(2);
                p.unsigned_tx.lock_time = absolute::LockTime::from_consensus(lock);
                for s1 in seqs {
                    p.unsigned_tx.input[0].sequence = Sequence(s0);
                    p.unsigned_tx.input[1].sequence = Sequence(s1);
                    ctx.validated();
                    ctx.state_h(&(lock, s0, s1));
                    for (ix, s) in [s0, s1].into_iter().enumerate() {
                        for n in locks {
                            ctx.step();
                            let sat = PsbtInputSatisfier::new(&p, ix);
                            same(|| format!("check_after({:#x}) of input {} with lock time {:#x}, sequences {:#x} and {:#x}", n, ix, lock, s0, s1), Satisfier::<PublicKey>::check_after(&sat, absolute::LockTime::from_consensus(n)), after(n, lock, s))?;
                        }
                    }
                }
                Ok(())
            });
        }
    }
    let vers = [0, 1, 2, 3, 4, 0x7fff_ffff];
    ctx.bound("relative locks", format!("{} transaction versions x {} sequences of each of two inputs x every lock of those sequences", vers.len(), seqs.len()));
    for ver in vers {
        for s0 in seqs {
            ctx.case(|| format!("version {} sequence {:#x}", ver, s0), |ctx| {
                let mut p = base(2);
                p.unsigned_tx.version = transaction::Version(ver);
                for s1 in seqs {
                    p.unsigned_tx.input[0].sequence = Sequence(s0);
                    p.unsigned_tx.input[1].sequence = Sequence(s1);
                    ctx.validated();
                    ctx.state_h(&(ver, s0, s1));
                    for (ix, s) in [s0, s1].into_iter().enumerate() {
                        for n in seqs {
                            let Ok(r) = relative::LockTime::from_consensus(n) else { continue };
                            ctx.step();
                            let sat = PsbtInputSatisfier::new(&p, ix);
                            same(|| format!("check_older({:#x}) of input {} with version {}, sequences {:#x} and {:#x}", n, ix, ver, s0, s1), Satisfier::<PublicKey>::check_older(&sat, r), older(n, ver, s))?;
                        }
                    }
                }
                Ok(())
            });
        }
    }
}
