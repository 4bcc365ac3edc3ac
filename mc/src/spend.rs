//! Spending scenarios: descriptors written as text, what is needed to satisfy them, keys and signatures made
//! by this harness. Policies and satisfiability are computed here, not by rust-miniscript; scripts come from
//! rust-miniscript's descriptors (a dependency) and are validated by the interpreter in `interp`.
use crate::interp::*;
use crate::util::*;
use bitcoin::bip32::{DerivationPath, Fingerprint, KeySource};
use bitcoin::hashes::Hash;
use bitcoin::secp256k1::{self, Message, Secp256k1, Signing};
use bitcoin::taproot::*;
use bitcoin::*;
use miniscript::Descriptor;
use psbt_v2::{v0, v2};
use std::collections::BTreeMap;
use std::str::FromStr;

// ---------------------------------------------------------------- keys

/// Number of key letters: A.. are compressed, and the letters from U on are the same keys uncompressed.
pub const NKEYS: usize = 12;

fn kcache<T: Clone + 'static>(i: u32, f: impl Fn(u32) -> T) -> T {
    thread_local! { static C: std::cell::RefCell<std::collections::HashMap<(u32, std::any::TypeId), Box<dyn std::any::Any>>> = Default::default(); }
    let id = (i, std::any::TypeId::of::<T>());
    if let Some(v) = C.with(|c| c.borrow().get(&id).map(|v| v.downcast_ref::<T>().unwrap().clone())) {
        return v;
    }
    let v = f(i);
    C.with(|c| c.borrow_mut().insert(id, Box::new(v.clone())));
    v
}
pub fn ksk(i: u32) -> secp256k1::SecretKey {
    kcache(i, |i| xpriv(7).derive_priv(secp(), &[bip32::ChildNumber::from(i)]).unwrap().private_key)
}
pub fn kpk(i: u32) -> secp256k1::PublicKey { kcache(i, |i| secp256k1::PublicKey::from_secret_key(secp(), &ksk(i))) }
pub fn kx(i: u32) -> XOnlyPublicKey { kpk(i).x_only_public_key().0 }
pub fn kfp() -> Fingerprint { kcache(0, |_| xpriv(7).fingerprint(secp())) }
pub fn ksrc(i: u32) -> KeySource { (kfp(), DerivationPath::from(vec![bip32::ChildNumber::from(i)])) }

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Key { pub i: u32, pub unc: bool }
impl Key {
    pub fn pk(self) -> PublicKey { PublicKey { compressed: !self.unc, inner: kpk(self.i) } }
    pub fn x(self) -> XOnlyPublicKey { kx(self.i) }
}
fn key_of(c: &str) -> Option<Key> {
    let b = c.as_bytes();
    match b {
        [c @ b'A'..=b'L'] => Some(Key { i: (*c - b'A') as u32, unc: false }),
        [c @ b'U'..=b'W'] => Some(Key { i: (*c - b'U') as u32, unc: true }),
        _ => None,
    }
}

/// How a provider answers.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ans { Bip32, Pubkey, Both, ErrThenKey }
#[derive(Clone, Debug)]
pub struct Prov {
    /// Bit i: has key i.
    pub mask: u32,
    pub ans: Ans,
    /// Bit i: gives key i in its uncompressed form.
    pub unc: u32,
}
impl Prov {
    pub fn new(mask: u32, ans: Ans) -> Prov { Prov { mask, ans, unc: 0 } }
    fn key(&self, i: u32) -> Option<PrivateKey> {
        (self.mask >> i & 1 == 1).then(|| PrivateKey { compressed: self.unc >> i & 1 == 0, network: NetworkKind::Main, inner: ksk(i) })
    }
    fn by_origin(&self, s: &KeySource) -> Result<Option<PrivateKey>, Refused> {
        match self.ans {
            Ans::Pubkey => Ok(None),
            Ans::ErrThenKey => Err(Refused),
            _ => Ok((0..NKEYS as u32).find(|i| ksrc(*i) == *s).and_then(|i| self.key(i))),
        }
    }
    fn by_key(&self, k: &PublicKey) -> Result<Option<PrivateKey>, Refused> {
        match self.ans {
            Ans::Bip32 => Err(Refused),
            _ => Ok((0..NKEYS as u32).find(|i| kpk(*i) == k.inner).and_then(|i| self.key(i))),
        }
    }
}
#[derive(Debug)]
pub struct Refused;
impl v0::bitcoin::GetKey for Prov {
    type Error = Refused;
    fn get_key<C: Signing>(&self, r: v0::bitcoin::KeyRequest, _: &Secp256k1<C>) -> Result<Option<PrivateKey>, Refused> {
        match r {
            v0::bitcoin::KeyRequest::Bip32(s) => self.by_origin(&s),
            v0::bitcoin::KeyRequest::Pubkey(k) => self.by_key(&k),
            _ => Ok(None),
        }
    }
}
impl v2::GetKey for Prov {
    type Error = Refused;
    fn get_key<C: Signing>(&self, r: v2::KeyRequest, _: &Secp256k1<C>) -> Result<Option<PrivateKey>, Refused> {
        match r {
            v2::KeyRequest::Bip32(s) => self.by_origin(&s),
            v2::KeyRequest::Pubkey(k) => self.by_key(&k),
            _ => Ok(None),
        }
    }
}

// ---------------------------------------------------------------- policies

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Hk { Sha256, Hash256, Ripemd160, Hash160 }
pub const HKS: [Hk; 4] = [Hk::Sha256, Hk::Hash256, Hk::Ripemd160, Hk::Hash160];

pub fn preimage(n: u32) -> [u8; 32] { sha(format!("mc preimage {}", n).as_bytes()) }

/// Where a signature goes.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Slot { Ecdsa(Key), Path, Leaf(u32, TapLeafHash) }

#[derive(Clone, Debug)]
pub enum Pol { Sig(Slot), Hash(Hk, u32), After(u32), Older(u32), Thresh(usize, Vec<Pol>) }

/// What is available to satisfy an input.
pub struct Env<'a> {
    pub sig: &'a dyn Fn(Slot) -> bool,
    pub pre: &'a dyn Fn(Hk, u32) -> bool,
    pub lock: u32,
    pub seq: u32,
    pub ver: i32,
}
impl Pol {
    pub fn sat(&self, e: &Env) -> bool {
        match self {
            Pol::Sig(s) => (e.sig)(*s),
            Pol::Hash(k, n) => (e.pre)(*k, *n),
            // BIP-65.
            Pol::After(n) => (*n < 500_000_000) == (e.lock < 500_000_000) && *n <= e.lock && e.seq != 0xffff_ffff,
            // BIP-112 and BIP-68. The version is compared as an unsigned number.
            Pol::Older(n) => {
                e.ver as u32 >= 2
                    && e.seq & 1 << 31 == 0
                    && (e.seq ^ n) & 1 << 22 == 0
                    && n & 0xffff <= e.seq & 0xffff
            }
            Pol::Thresh(k, v) => v.iter().filter(|p| p.sat(e)).count() >= *k,
        }
    }
    pub fn visit(&self, f: &mut dyn FnMut(&Pol)) {
        f(self);
        if let Pol::Thresh(_, v) = self {
            v.iter().for_each(|p| p.visit(f));
        }
    }
}

#[derive(Debug, Clone)]
enum Ex { Call(String, Vec<Ex>), Tree(Box<Ex>, Box<Ex>) }
fn parse(s: &str) -> (Ex, &str) {
    if let Some(r) = s.strip_prefix('{') {
        let (a, r) = parse(r);
        let (b, r) = parse(r.strip_prefix(',').expect("comma"));
        return (Ex::Tree(Box::new(a), Box::new(b)), r.strip_prefix('}').expect("brace"));
    }
    let end = s.find(['(', ')', ',', '{', '}']).unwrap_or(s.len());
    let (name, mut r) = s.split_at(end);
    let name = name.rsplit(':').next().unwrap().to_string();
    let mut args = vec![];
    if let Some(q) = r.strip_prefix('(') {
        r = q;
        loop {
            let (a, q) = parse(r);
            args.push(a);
            r = &q[1..];
            if q.starts_with(')') {
                break;
            }
            assert!(q.starts_with(','));
        }
    }
    (Ex::Call(name, args), r)
}
fn name(e: &Ex) -> &str {
    match e {
        Ex::Call(n, _) => n,
        Ex::Tree(..) => panic!("tree"),
    }
}
fn pol(e: &Ex, leaf: Option<TapLeafHash>, keys: &mut Vec<Key>) -> Pol {
    let Ex::Call(n, a) = e else { panic!("tree") };
    let mut sig = |s: &Ex| {
        let k = key_of(name(s)).unwrap_or_else(|| panic!("key {}", name(s)));
        if !keys.contains(&k) {
            keys.push(k);
        }
        Pol::Sig(match leaf {
            None => Slot::Ecdsa(k),
            Some(l) => Slot::Leaf(k.i, l),
        })
    };
    let num = |e: &Ex| name(e).parse::<u32>().unwrap();
    let hash = |k| Pol::Hash(k, name(&a[0])[1..].parse().unwrap());
    match n.as_str() {
        "pk" | "pkh" | "pk_k" | "pk_h" | "wpkh" => sig(&a[0]),
        "multi" | "sortedmulti" | "multi_a" | "sortedmulti_a" => {
            let k = num(&a[0]) as usize;
            Pol::Thresh(k, a[1..].iter().map(sig).collect())
        }
        "after" => Pol::After(num(&a[0])),
        "older" => Pol::Older(num(&a[0])),
        "sha256" => hash(Hk::Sha256),
        "hash256" => hash(Hk::Hash256),
        "ripemd160" => hash(Hk::Ripemd160),
        "hash160" => hash(Hk::Hash160),
        "and_v" | "and_b" | "and_n" => Pol::Thresh(2, a.iter().map(|x| pol(x, leaf, keys)).collect()),
        "or_b" | "or_c" | "or_d" | "or_i" => Pol::Thresh(1, a.iter().map(|x| pol(x, leaf, keys)).collect()),
        "andor" => {
            let p: Vec<_> = a.iter().map(|x| pol(x, leaf, keys)).collect();
            Pol::Thresh(1, vec![Pol::Thresh(2, p[..2].to_vec()), p[2].clone()])
        }
        "thresh" => Pol::Thresh(num(&a[0]) as usize, a[1..].iter().map(|x| pol(x, leaf, keys)).collect()),
        "sh" | "wsh" => pol(&a[0], leaf, keys),
        "1" => Pol::Thresh(0, vec![]),
        "0" => Pol::Thresh(1, vec![]),
        n => panic!("fragment {}", n),
    }
}
fn render(s: &str) -> String {
    // Replaces key letters and preimage numbers.
    let mut out = String::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    let (mut fun, mut last) = (String::new(), String::new());
    while i < cs.len() {
        let c = cs[i];
        if c.is_ascii_uppercase() {
            let k = key_of(&c.to_string()).unwrap();
            out += &k.pk().to_string();
        } else if c == 'h' && i > 0 && cs[i - 1] == '(' && i + 1 < cs.len() && cs[i + 1].is_ascii_digit() {
            let p = preimage(cs[i + 1].to_digit(10).unwrap());
            out += &match last.as_str() {
                "sha256" => h_sha256(&p).to_string(),
                // Descriptors show it in the order of the bytes.
                "hash256" => hex(&h_hash256(&p).to_byte_array()),
                "ripemd160" => h_ripemd(&p).to_string(),
                "hash160" => h_hash160(&p).to_string(),
                f => panic!("hash {}", f),
            };
            i += 1;
        } else {
            out.push(c);
        }
        if c.is_ascii_lowercase() || c.is_ascii_digit() || c == '_' {
            fun.push(c);
        } else {
            last = std::mem::take(&mut fun);
        }
        i += 1;
    }
    out
}

// ---------------------------------------------------------------- kinds of output

#[derive(Clone, Debug)]
pub struct Leaf { pub script: ScriptBuf, pub control: ControlBlock, pub hash: TapLeafHash, pub keys: Vec<Key> }
#[derive(Clone, Debug)]
pub struct Tap { pub internal: Key, pub root: Option<TapNodeHash>, pub leaves: Vec<Leaf> }

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ot { Bare, Sh, Wpkh, Wsh, ShWpkh, ShWsh, Tr }

#[derive(Clone, Debug)]
pub struct Kind {
    pub name: String,
    pub text: String,
    pub desc: Descriptor<PublicKey>,
    pub ot: Ot,
    pub spk: ScriptBuf,
    pub redeem: Option<ScriptBuf>,
    pub wscript: Option<ScriptBuf>,
    pub tap: Option<Tap>,
    pub keys: Vec<Key>,
    pub pol: Pol,
    pub slots: Vec<Slot>,
    pub hashes: Vec<(Hk, u32)>,
    /// Whether every satisfaction is non-malleable (by rust-miniscript's type system).
    pub strict: bool,
}

pub fn kind(s: &str) -> Kind {
    let (ex, rest) = parse(s);
    assert!(rest.is_empty(), "{}", s);
    let tapk = s.starts_with("tr(");
    let text = render(s);
    let desc = Descriptor::<PublicKey>::from_str(&text).unwrap_or_else(|e| panic!("{}: {}", s, e));
    let spk = desc.script_pubkey();
    let mut keys = vec![];
    let (mut redeem, mut wscript, mut tap) = (None, None, None);
    let ot;
    let p;
    if tapk {
        ot = Ot::Tr;
        let Ex::Call(_, a) = &ex else { panic!() };
        let internal = key_of(name(&a[0])).unwrap();
        keys.push(internal);
        let Descriptor::Tr(tr) = &desc else { panic!() };
        let mut leaves = vec![];
        let mut pols = vec![Pol::Sig(Slot::Path)];
        let info = tr.spend_info();
        if let Some(t) = a.get(1) {
            fn flat<'a>(e: &'a Ex, out: &mut Vec<&'a Ex>) {
                match e {
                    Ex::Tree(a, b) => {
                        flat(a, out);
                        flat(b, out);
                    }
                    c => out.push(c),
                }
            }
            let mut fl = vec![];
            flat(t, &mut fl);
            for ((_, ms), e) in tr.iter_scripts().zip(fl) {
                let script = ms.encode();
                let hash = TapLeafHash::from_byte_array(tap_leaf(script.as_bytes(), 0xc0));
                let mut ks = vec![];
                pols.push(pol(e, Some(hash), &mut ks));
                for k in &ks {
                    if !keys.contains(k) {
                        keys.push(*k);
                    }
                }
                let control = info.control_block(&(script.clone(), LeafVersion::TapScript)).unwrap();
                leaves.push(Leaf { script, control, hash, keys: ks });
            }
        }
        tap = Some(Tap { internal, root: info.merkle_root(), leaves });
        p = Pol::Thresh(1, pols);
    } else {
        p = pol(&ex, None, &mut keys);
        let nested = s.starts_with("sh(w");
        ot = match () {
            _ if s.starts_with("sh(wpkh(") => Ot::ShWpkh,
            _ if s.starts_with("sh(wsh(") => Ot::ShWsh,
            _ if s.starts_with("sh(") => Ot::Sh,
            _ if s.starts_with("wsh(") => Ot::Wsh,
            _ if s.starts_with("wpkh(") => Ot::Wpkh,
            _ => Ot::Bare,
        };
        let inner = || desc.explicit_script().unwrap();
        match ot {
            Ot::Wsh => wscript = Some(inner()),
            Ot::ShWsh => {
                wscript = Some(inner());
                redeem = Some(ScriptBuf::from_bytes([&[0, 32][..], &sha(inner().as_bytes())].concat()));
            }
            Ot::ShWpkh => {
                let h = h_hash160(&keys[0].pk().to_bytes()).to_byte_array();
                redeem = Some(ScriptBuf::from_bytes([&[0, 20][..], &h].concat()));
            }
            Ot::Sh => redeem = Some(inner()),
            _ => {}
        }
        assert!(nested == matches!(ot, Ot::ShWpkh | Ot::ShWsh));
    }
    let mut slots = vec![];
    let mut hashes = vec![];
    p.visit(&mut |q| match q {
        Pol::Sig(s) if !slots.contains(s) => slots.push(*s),
        Pol::Hash(k, n) if !hashes.contains(&(*k, *n)) => hashes.push((*k, *n)),
        _ => {}
    });
    let strict = match &desc {
        Descriptor::Tr(t) => t.iter_scripts().all(|(_, m)| m.is_non_malleable() && m.requires_sig()),
        Descriptor::Wsh(_) | Descriptor::Sh(_) | Descriptor::Bare(_) => desc.sanity_check().is_ok(),
        _ => true,
    };
    Kind { name: s.into(), text, desc, ot, spk, redeem, wscript, tap, keys, pol: p, slots, hashes, strict }
}

pub fn kinds(names: &[&str]) -> Vec<Kind> { names.iter().map(|n| kind(n)).collect() }

impl Kind {
    pub fn segwit(&self) -> bool { !matches!(self.ot, Ot::Bare | Ot::Sh) }
    pub fn schnorr(&self) -> bool { self.ot == Ot::Tr }
    /// The ECDSA hash to sign for input `ix`.
    pub fn ecdsa_hash(&self, tx: &Transaction, ix: usize, value: u64, ty: u32) -> [u8; 32] {
        let pkh = |h: &[u8]| ScriptBuf::from_bytes([&[0x76, 0xa9, 0x14][..], h, &[0x88, 0xac]].concat());
        match self.ot {
            Ot::Bare => sighash_legacy(tx, ix, &self.spk, ty),
            Ot::Sh => sighash_legacy(tx, ix, self.redeem.as_ref().unwrap(), ty),
            Ot::Wpkh => sighash_v0(tx, ix, &pkh(&self.spk.as_bytes()[2..]), value, ty),
            Ot::ShWpkh => sighash_v0(tx, ix, &pkh(&self.redeem.as_ref().unwrap().as_bytes()[2..]), value, ty),
            Ot::Wsh | Ot::ShWsh => sighash_v0(tx, ix, self.wscript.as_ref().unwrap(), value, ty),
            Ot::Tr => panic!("schnorr"),
        }
    }
}

pub enum Sig { Ecdsa(PublicKey, ecdsa::Signature), Path(taproot::Signature), Leaf(XOnlyPublicKey, TapLeafHash, taproot::Signature) }

/// A valid signature for a slot of input `ix`; none where the type does not allow one.
pub fn make_sig(k: &Kind, s: Slot, tx: &Transaction, ix: usize, prev: &[TxOut], ty: u8) -> Option<Sig> {
    let tapty = || TapSighashType::from_consensus_u8(ty).ok();
    match s {
        Slot::Ecdsa(key) => {
            let t = EcdsaSighashType::from_standard(ty as u32).ok()?;
            let h = k.ecdsa_hash(tx, ix, prev[ix].value.to_sat(), ty as u32);
            let signature = secp().sign_ecdsa(&Message::from_digest(h), &ksk(key.i));
            Some(Sig::Ecdsa(key.pk(), ecdsa::Signature { signature, sighash_type: t }))
        }
        Slot::Path => {
            let t = k.tap.as_ref().unwrap();
            let h = sighash_tap(tx, ix, prev, None, ty)?;
            let kp = secp256k1::Keypair::from_secret_key(secp(), &ksk(t.internal.i));
            let kp = {
                use bitcoin::key::TapTweak;
                kp.tap_tweak(secp(), t.root).to_keypair()
            };
            let signature = secp().sign_schnorr_no_aux_rand(&Message::from_digest(h), &kp);
            Some(Sig::Path(taproot::Signature { signature, sighash_type: tapty()? }))
        }
        Slot::Leaf(i, leaf) => {
            let h = sighash_tap(tx, ix, prev, Some(leaf.to_byte_array()), ty)?;
            let kp = secp256k1::Keypair::from_secret_key(secp(), &ksk(i));
            let signature = secp().sign_schnorr_no_aux_rand(&Message::from_digest(h), &kp);
            Some(Sig::Leaf(kx(i), leaf, taproot::Signature { signature, sighash_type: tapty()? }))
        }
    }
}

// ---------------------------------------------------------------- inputs of either version

/// The parts of an input map that both versions have, set through public fields.
pub trait InMap {
    fn wit(&mut self) -> &mut Option<TxOut>;
    fn non(&mut self) -> &mut Option<Transaction>;
    fn psigs(&mut self) -> &mut BTreeMap<PublicKey, ecdsa::Signature>;
    fn redeem(&mut self) -> &mut Option<ScriptBuf>;
    fn wscript(&mut self) -> &mut Option<ScriptBuf>;
    fn derivs(&mut self) -> &mut BTreeMap<secp256k1::PublicKey, KeySource>;
    fn put_pre(&mut self, k: Hk, pre: Vec<u8>, of: &[u8]);
    fn tap_sig(&mut self) -> &mut Option<taproot::Signature>;
    fn tap_sigs(&mut self) -> &mut BTreeMap<(XOnlyPublicKey, TapLeafHash), taproot::Signature>;
    fn tap_scripts(&mut self) -> &mut BTreeMap<ControlBlock, (ScriptBuf, LeafVersion)>;
    fn tap_orig(&mut self) -> &mut BTreeMap<XOnlyPublicKey, (Vec<TapLeafHash>, KeySource)>;
    fn tap_int(&mut self) -> &mut Option<XOnlyPublicKey>;
    fn tap_root(&mut self) -> &mut Option<TapNodeHash>;
    fn set_type(&mut self, t: Option<u32>);
}
macro_rules! in_map {
    ($t:ty, $bip:ident) => {
        impl InMap for $t {
            fn wit(&mut self) -> &mut Option<TxOut> { &mut self.witness_utxo }
            fn non(&mut self) -> &mut Option<Transaction> { &mut self.non_witness_utxo }
            fn psigs(&mut self) -> &mut BTreeMap<PublicKey, ecdsa::Signature> { &mut self.partial_sigs }
            fn redeem(&mut self) -> &mut Option<ScriptBuf> { &mut self.redeem_script }
            fn wscript(&mut self) -> &mut Option<ScriptBuf> { &mut self.witness_script }
            fn derivs(&mut self) -> &mut BTreeMap<secp256k1::PublicKey, KeySource> { &mut self.$bip }
            /// Files preimage `pre` under the hash of `of`.
            fn put_pre(&mut self, k: Hk, pre: Vec<u8>, of: &[u8]) {
                match k {
                    Hk::Sha256 => { self.sha256_preimages.insert(h_sha256(of), pre); }
                    Hk::Hash256 => { self.hash256_preimages.insert(h_hash256(of), pre); }
                    Hk::Ripemd160 => { self.ripemd160_preimages.insert(h_ripemd(of), pre); }
                    Hk::Hash160 => { self.hash160_preimages.insert(h_hash160(of), pre); }
                }
            }
            fn tap_sig(&mut self) -> &mut Option<taproot::Signature> { &mut self.tap_key_sig }
            fn tap_sigs(&mut self) -> &mut BTreeMap<(XOnlyPublicKey, TapLeafHash), taproot::Signature> { &mut self.tap_script_sigs }
            fn tap_scripts(&mut self) -> &mut BTreeMap<ControlBlock, (ScriptBuf, LeafVersion)> { &mut self.tap_scripts }
            fn tap_orig(&mut self) -> &mut BTreeMap<XOnlyPublicKey, (Vec<TapLeafHash>, KeySource)> { &mut self.tap_key_origins }
            fn tap_int(&mut self) -> &mut Option<XOnlyPublicKey> { &mut self.tap_internal_key }
            fn tap_root(&mut self) -> &mut Option<TapNodeHash> { &mut self.tap_merkle_root }
            fn set_type(&mut self, t: Option<u32>) { self.sighash_type = t.map(psbt_v2::PsbtSighashType::from_u32); }
        }
    };
}
in_map!(v0::bitcoin::Input, bip32_derivation);
in_map!(v2::Input, bip32_derivations);

/// Writes what an updater knows about a kind: scripts, derivations, taproot data.
pub fn describe<I: InMap>(i: &mut I, k: &Kind) {
    *i.redeem() = k.redeem.clone();
    *i.wscript() = k.wscript.clone();
    if let Some(t) = &k.tap {
        *i.tap_int() = Some(t.internal.x());
        *i.tap_root() = t.root;
        i.tap_orig().insert(t.internal.x(), (vec![], ksrc(t.internal.i)));
        for l in &t.leaves {
            i.tap_scripts().insert(l.control.clone(), (l.script.clone(), LeafVersion::TapScript));
            for key in &l.keys {
                let e = i.tap_orig().entry(key.x()).or_insert((vec![], ksrc(key.i)));
                if !e.0.contains(&l.hash) {
                    e.0.push(l.hash);
                }
            }
        }
        for e in i.tap_orig().values_mut() {
            e.0.sort();
        }
    } else {
        for key in &k.keys {
            i.derivs().insert(kpk(key.i), ksrc(key.i));
        }
    }
}
pub fn add_sig<I: InMap>(i: &mut I, s: Sig) {
    match s {
        Sig::Ecdsa(k, s) => {
            i.psigs().insert(k, s);
        }
        Sig::Path(s) => *i.tap_sig() = Some(s),
        Sig::Leaf(x, l, s) => {
            i.tap_sigs().insert((x, l), s);
        }
    }
}

/// How an input says what it spends.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form { Wit, Non, Both, None }

/// A transaction spending one output of each kind. `prev[i].1` is input i's previous transaction.
pub struct Spend { pub tx: Transaction, pub prev: Vec<TxOut>, pub prev_tx: Vec<Transaction> }

pub fn spend(spks: &[ScriptBuf], n_out: usize, ver: i32, lock: u32, seqs: &[u32]) -> Spend {
    let mut tx = Transaction {
        version: transaction::Version(ver),
        lock_time: absolute::LockTime::from_consensus(lock),
        input: vec![],
        output: (0..n_out).map(|i| txo(20_000 + i as u64, p2wpkh(60 + i as u32))).collect(),
    };
    let (mut prev, mut prev_txs) = (vec![], vec![]);
    for (i, s) in spks.iter().enumerate() {
        let out = txo(90_000 + 1000 * i as u64, s.clone());
        let vout = (i % 3) as u32;
        let t = prev_tx(i as u32, vout, out.clone());
        tx.input.push(TxIn {
            previous_output: OutPoint { txid: crate::model::txid_of(&t), vout },
            sequence: Sequence(seqs[i]),
            ..Default::default()
        });
        prev.push(out);
        prev_txs.push(t);
    }
    Spend { tx, prev, prev_tx: prev_txs }
}
impl Spend {
    pub fn fund<I: InMap>(&self, i: &mut I, ix: usize, f: Form) {
        if matches!(f, Form::Wit | Form::Both) {
            *i.wit() = Some(self.prev[ix].clone());
        }
        if matches!(f, Form::Non | Form::Both) {
            *i.non() = Some(self.prev_tx[ix].clone());
        }
    }
    pub fn v0(&self) -> v0::Psbt { crate::fields::v0_from(self.tx.clone()).0 }
    /// As a PSBTv2 which gives the lock time as fallback. A sequence of `0xffffffff` is left out.
    pub fn v2(&self) -> v2::Psbt {
        let mut p = v2::Creator::new().psbt();
        p.global.tx_version = self.tx.version;
        if self.tx.lock_time != absolute::LockTime::ZERO {
            p.global.fallback_lock_time = Some(self.tx.lock_time);
        }
        p.inputs = self
            .tx
            .input
            .iter()
            .map(|i| {
                let mut m = v2::Input::new(&i.previous_output);
                if i.sequence != Sequence::MAX {
                    m.sequence = Some(i.sequence);
                }
                m
            })
            .collect();
        p.outputs = self.tx.output.iter().map(|o| v2::Output::new(o.clone())).collect();
        p.global.input_count = p.inputs.len();
        p.global.output_count = p.outputs.len();
        p
    }
}

/// Every kind of output used with the signer.
pub const SIGN_KINDS: &[&str] = &[
    "pk(A)", "pk(U)", "pkh(A)", "pkh(U)", "multi(1,A,B)", "multi(2,A,B,C)",
    "sh(multi(2,A,B,C))", "sh(pkh(A))", "sh(pk(U))",
    "wpkh(A)", "sh(wpkh(A))", "wsh(pk(A))", "wsh(multi(2,A,B,C))", "wsh(or_d(pk(A),and_v(v:pkh(B),older(5))))",
    "sh(wsh(multi(1,A,B)))", "sh(wsh(pkh(A)))",
    "tr(A)", "tr(A,pk(B))", "tr(A,{pk(B),pk(C)})", "tr(A,{multi_a(2,A,B),{pk(C),and_v(v:pk(B),older(5))}})",
];

/// More kinds, for the finaliser.
pub const MORE_KINDS: &[&str] = &[
    "sh(and_v(v:pk(A),after(100)))", "sh(sortedmulti(1,B,A))", "sh(or_d(pk(A),and_v(v:pk(B),older(10))))",
    "wsh(pkh(A))", "wsh(sortedmulti(2,C,A,B))", "wsh(and_v(v:pk(A),after(100)))", "wsh(and_v(v:pk(A),after(500000100)))",
    "wsh(and_v(v:pk(A),older(10)))", "wsh(and_v(v:pk(A),older(4194314)))",
    "wsh(and_v(v:pk(A),sha256(h0)))", "wsh(and_v(v:pk(A),hash256(h0)))", "wsh(and_v(v:pk(A),ripemd160(h0)))", "wsh(and_v(v:pk(A),hash160(h0)))",
    "wsh(andor(pk(A),older(10),pk(B)))", "wsh(andor(pk(A),sha256(h0),and_v(v:pk(B),after(100))))",
    "wsh(thresh(2,pk(A),s:pk(B),sln:older(10)))", "wsh(thresh(2,pk(A),s:pk(B),s:pk(C)))",
    "wsh(or_i(pk(A),and_v(v:pkh(B),after(100))))", "wsh(and_b(pk(A),a:sha256(h1)))", "wsh(or_b(pk(A),s:pk(B)))",
    "wsh(and_v(v:pk(A),and_v(v:sha256(h0),hash160(h1))))",
    "sh(wsh(and_v(v:pk(A),older(10))))", "sh(wsh(or_d(multi(2,A,B),and_v(v:pkh(C),after(100)))))",
    "tr(A,and_v(v:pk(B),older(10)))", "tr(A,{pk(B),and_v(v:pk(C),after(100))})", "tr(A,and_v(v:pk(B),sha256(h0)))",
    "tr(A,{pkh(B),multi_a(2,B,C)})", "tr(A,{and_v(v:pk(B),hash160(h0)),{pk(C),multi_a(1,A,B)}})",
];

// ---------------------------------------------------------------- scripts by grammar

/// Wrappers and body of a fragment. `@` stands for a key, `#` for the number of a preimage.
type Frag = (String, String);
fn frag((w, b): &Frag, more: &str) -> String {
    let w = format!("{}{}", more, w);
    if w.is_empty() { b.clone() } else { format!("{}:{}", w, b) }
}
/// Every descriptor of the given form whose script combines up to `deep` levels of fragments.
pub fn grown(form: &str, deep: usize, wide: bool) -> Vec<Kind> {
    let tap = form.starts_with("tr");
    let multi = if tap { "multi_a(1,@,@)" } else { "multi(1,@,@)" };
    let atoms = ["pk(@)", "pkh(@)", multi, "sha256(h#)", "hash160(h#)", "older(10)", "after(100)"];
    let wraps: &[&str] = if wide { &["", "n", "l", "u", "j", "dv", "tv", "ndv", "nl"] } else { &["", "j", "dv"] };
    let single: Vec<Frag> = atoms.iter().flat_map(|a| wraps.iter().map(|w| (w.to_string(), a.to_string()))).collect();
    let plain: Vec<Frag> = atoms.iter().map(|a| (String::new(), a.to_string())).collect();
    let pairs = |xs: &[Frag], ys: &[Frag]| -> Vec<Frag> {
        let mut out = vec![];
        for x in xs {
            for y in ys {
                let mut add = |w: &str, b: String| out.push((w.to_string(), b));
                let (x, y) = (|w: &str| frag(x, w), |w: &str| frag(y, w));
                add("", format!("and_v({},{})", x("v"), y("")));
                add("t", format!("or_c({},{})", x(""), y("v")));
                add("", format!("or_d({},{})", x(""), y("")));
                add("", format!("or_i({},{})", x(""), y("")));
                add("", format!("and_n({},{})", x(""), y("")));
                for w in ["a", "s"] {
                    add("", format!("and_b({},{})", x(""), y(w)));
                    add("", format!("or_b({},{})", x(""), y(w)));
                    add("", format!("thresh(1,{},{})", x(""), y(w)));
                    add("", format!("thresh(2,{},{})", x(""), y(w)));
                }
            }
        }
        out
    };
    let triples = |xs: &[Frag], ys: &[Frag], zs: &[Frag]| -> Vec<Frag> {
        let mut out = vec![];
        for x in xs {
            for y in ys {
                for z in zs {
                    let (x, y, z) = (|w: &str| frag(x, w), |w: &str| frag(y, w), |w: &str| frag(z, w));
                    out.push((String::new(), format!("andor({},{},{})", x(""), y(""), z(""))));
                    for (a, b) in [("s", "s"), ("a", "a"), ("s", "a")] {
                        for k in 1..=3 {
                            out.push((String::new(), format!("thresh({},{},{},{})", k, x(""), y(a), z(b))));
                        }
                    }
                }
            }
        }
        out
    };
    let mut all = single.clone();
    let two = pairs(&single, &single);
    let small = pairs(&plain, &plain);
    all.extend(two);
    all.extend(triples(&plain, &plain, &plain));
    if deep > 2 {
        for w in ["", "j", "n"] {
            let s: Vec<Frag> = small.iter().map(|(v, b)| (format!("{}{}", w, v), b.clone())).collect();
            all.extend(pairs(&s, &plain));
            all.extend(pairs(&plain, &s));
        }
        all.extend(triples(&small, &plain[..2], &plain[..2]));
    }
    let mut seen = std::collections::BTreeSet::new();
    let mut out = vec![];
    for f in &all {
        let (mut k, mut h) = (b'A', 0);
        let body: String = frag(f, "")
            .chars()
            .map(|c| match c {
                '@' => {
                    k += 1;
                    (k - 1) as char
                }
                '#' => {
                    h += 1;
                    (b'0' + h - 1) as char
                }
                c => c,
            })
            .collect();
        let text = form.replace('*', &body);
        let Ok(d) = Descriptor::<PublicKey>::from_str(&render(&text)) else { continue };
        if seen.insert(d.script_pubkey()) {
            // rust-miniscript takes a preimage that is not there for one that somebody else may have.
            let k = kind(&text);
            out.push(Kind { strict: k.strict && (k.hashes.is_empty() || deep < 3), ..k });
        }
    }
    out
}
