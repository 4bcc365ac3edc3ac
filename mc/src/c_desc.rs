//! F05: updating with descriptors.
use crate::c_sign::{bystand, bystanders};
use crate::fields::PsbtV;
use crate::interp;
use crate::run::*;
use crate::spend::*;
use crate::util::*;
use crate::wire::*;
use bitcoin::bip32::{ChildNumber, DerivationPath, Fingerprint, KeySource};
use bitcoin::hashes::{sha256t, Hash, HashEngine};
use bitcoin::taproot::*;
use bitcoin::*;
use miniscript::{DefiniteDescriptorKey, Descriptor};
use psbt_v2::v0;
use psbt_v2::v0::bitcoin::{Input, Output};
use psbt_v2::v0::miniscript::{PsbtExt, PsbtInputExt, PsbtOutputExt};
use psbt_v2::v0::Psbt;
use std::collections::BTreeMap;
use std::str::FromStr;

/// How a key is written in a descriptor; the public key is always the same.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kf {
    /// Only the key.
    Raw,
    /// Its origin and the key.
    Orig,
    /// A path from an extended key.
    Xpub,
    /// A path from an extended key with an origin.
    Acct,
    /// The same, but without a step from the extended key to the key.
    Leafx,
    /// Only the x coordinate (taproot).
    XRaw,
    XOrig,
    /// These can not be derived.
    Hard,
    Multi,
}
const FORMS: [Kf; 5] = [Kf::Raw, Kf::Orig, Kf::Xpub, Kf::Acct, Kf::Leafx];
const XFORMS: [Kf; 7] = [Kf::Raw, Kf::Orig, Kf::Xpub, Kf::Acct, Kf::Leafx, Kf::XRaw, Kf::XOrig];

fn steps(s: &[u32]) -> DerivationPath { s.iter().map(|n| ChildNumber::from(*n)).collect::<Vec<_>>().into() }
fn fp(b: [u8; 4]) -> Fingerprint { Fingerprint::from(b) }
const H: u32 = 1 << 31;
fn master() -> bip32::Xpub { bip32::Xpub::from_priv(secp(), &xpriv(7)) }

fn text(k: Key, f: Kf) -> String {
    match f {
        Kf::Raw => k.pk().to_string(),
        Kf::Orig => format!("[{}/{}]{}", kfp(), k.i, k.pk()),
        Kf::Xpub => format!("{}/{}", master(), k.i),
        Kf::Acct => format!("[0a0b0c0d/48h/1h/3]{}/{}", master(), k.i),
        Kf::Leafx => format!("[{}/{}]{}", kfp(), k.i, master().derive_pub(secp(), &steps(&[k.i])).unwrap()),
        Kf::XRaw => k.x().to_string(),
        Kf::XOrig => format!("[0a0b0c0d/86h/{}]{}", k.i, k.x()),
        Kf::Hard => format!("{}/{}h", master(), k.i),
        Kf::Multi => format!("{}/<{};{}>", master(), k.i, k.i + 20),
    }
}
fn source(k: Key, f: Kf) -> KeySource {
    let own = |b: &[u8]| {
        let h = h_hash160(b).to_byte_array();
        (fp([h[0], h[1], h[2], h[3]]), steps(&[]))
    };
    match f {
        Kf::Raw => own(&k.pk().to_bytes()),
        Kf::XRaw => own(&k.x().serialize()),
        Kf::Orig | Kf::Xpub | Kf::Leafx => (kfp(), steps(&[k.i])),
        Kf::Acct => (fp([10, 11, 12, 13]), steps(&[H | 48, H | 1, 3, k.i])),
        Kf::XOrig => (fp([10, 11, 12, 13]), steps(&[H | 86, k.i])),
        Kf::Hard | Kf::Multi => unreachable!(),
    }
}

/// What a descriptor with these key forms implies for a map.
struct Want {
    redeem: Option<ScriptBuf>,
    wscript: Option<ScriptBuf>,
    derivs: BTreeMap<secp256k1::PublicKey, KeySource>,
    tap: Option<WantTap>,
}
struct WantTap {
    internal: XOnlyPublicKey,
    root: Option<TapNodeHash>,
    scripts: BTreeMap<ControlBlock, (ScriptBuf, LeafVersion)>,
    /// The internal key comes first.
    orig: Vec<(XOnlyPublicKey, (Vec<TapLeafHash>, KeySource))>,
    tree: Option<TapTree>,
}

fn tagged(tag: &str, parts: &[&[u8]]) -> [u8; 32] {
    let t = sha(tag.as_bytes());
    sha(&[&t[..], &t[..], &parts.concat()].concat())
}
/// The output key that a leaf and its control block lead to.
fn leads_to(c: &ControlBlock, script: &Script) -> (XOnlyPublicKey, secp256k1::Parity) {
    let b = c.serialize();
    let mut h = interp::tap_leaf(script.as_bytes(), b[0] & 0xfe);
    for p in b[33..].chunks(32) {
        h = if h[..] < *p { tagged("TapBranch", &[&h, p]) } else { tagged("TapBranch", &[p, &h]) };
    }
    let x = XOnlyPublicKey::from_slice(&b[1..33]).unwrap();
    let t = tagged("TapTweak", &[&b[1..33], &h]);
    x.add_tweak(secp(), &secp256k1::Scalar::from_be_bytes(t).unwrap()).unwrap()
}

/// Depths of the leaves in a descriptor's text.
fn depths(name: &str) -> Vec<u8> {
    let inner = &name[3..name.len() - 1];
    let Some((_, tree)) = inner.split_once(',') else { return vec![] };
    let (mut d, mut out, mut paren, mut fresh) = (0u8, vec![], 0, true);
    for c in tree.chars() {
        match c {
            '{' => d += 1,
            '}' => d -= 1,
            '(' => paren += 1,
            ')' => paren -= 1,
            ',' if paren == 0 => fresh = true,
            _ if fresh => {
                out.push(d);
                fresh = false;
            }
            _ => {}
        }
    }
    out
}

fn want(k: &Kind, form: &dyn Fn(Key) -> Kf) -> Want {
    let mut w = Want { redeem: k.redeem.clone(), wscript: k.wscript.clone(), derivs: BTreeMap::new(), tap: None };
    let Some(t) = &k.tap else {
        w.derivs = k.keys.iter().map(|key| (kpk(key.i), source(*key, form(*key)))).collect();
        return w;
    };
    let mut orig: Vec<(XOnlyPublicKey, (Vec<TapLeafHash>, KeySource))> = vec![];
    orig.push((t.internal.x(), (vec![], source(t.internal, form(t.internal)))));
    let mut scripts = BTreeMap::new();
    for l in &t.leaves {
        scripts.insert(l.control.clone(), (l.script.clone(), LeafVersion::TapScript));
        for key in &l.keys {
            let ix = match orig.iter().position(|(x, _)| *x == key.x()) {
                Some(ix) => ix,
                None => {
                    orig.push((key.x(), (vec![], source(*key, form(*key)))));
                    orig.len() - 1
                }
            };
            orig[ix].1 .0.push(l.hash);
        }
    }
    let d = depths(&k.name);
    assert_eq!(d.len(), t.leaves.len(), "{}", k.name);
    let mut b = TaprootBuilder::new();
    for (l, d) in t.leaves.iter().zip(&d) {
        b = b.add_leaf(*d, l.script.clone()).unwrap();
    }
    let tree = (!d.is_empty()).then(|| TapTree::try_from(b).unwrap());
    w.tap = Some(WantTap { internal: t.internal.x(), root: t.root, scripts, orig, tree });
    w
}
fn put_orig(m: &mut BTreeMap<XOnlyPublicKey, (Vec<TapLeafHash>, KeySource)>, t: &WantTap) {
    for (n, (x, (leaves, src))) in t.orig.iter().enumerate() {
        if n == 0 {
            m.insert(*x, (leaves.clone(), src.clone()));
        } else {
            m.entry(*x).or_insert((vec![], src.clone())).0.extend(leaves);
        }
    }
    for (l, _) in m.values_mut() {
        l.sort();
        l.dedup();
    }
}
fn on_input(i: &mut Input, w: &Want) {
    if w.redeem.is_some() {
        i.redeem_script = w.redeem.clone();
    }
    if w.wscript.is_some() {
        i.witness_script = w.wscript.clone();
    }
    i.bip32_derivation.extend(w.derivs.clone());
    if let Some(t) = &w.tap {
        i.tap_internal_key = Some(t.internal);
        i.tap_merkle_root = t.root;
        i.tap_scripts.extend(t.scripts.clone());
        put_orig(&mut i.tap_key_origins, t);
    }
}
fn on_output(o: &mut Output, w: &Want) {
    if w.redeem.is_some() {
        o.redeem_script = w.redeem.clone();
    }
    if w.wscript.is_some() {
        o.witness_script = w.wscript.clone();
    }
    o.bip32_derivation.extend(w.derivs.clone());
    if let Some(t) = &w.tap {
        o.tap_internal_key = Some(t.internal);
        if t.tree.is_some() {
            o.tap_tree = t.tree.clone();
        }
        put_orig(&mut o.tap_key_origins, t);
    }
}

/// What is in the map already.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Had { Nothing, Others, Same, Part }

fn unknowns() -> BTreeMap<v0::bitcoin::raw::Key, Vec<u8>> {
    [(v0::bitcoin::raw::Key { type_value: 0x77, key: vec![1, 2] }, vec![3]), (v0::bitcoin::raw::Key { type_value: 0xf0, key: vec![] }, vec![])].into()
}
fn props() -> BTreeMap<v0::bitcoin::raw::ProprietaryKey, Vec<u8>> {
    [(v0::bitcoin::raw::ProprietaryKey { prefix: b"mc".to_vec(), subtype: 7, key: vec![4] }, vec![5])].into()
}
fn leaf(n: u8) -> TapLeafHash { TapLeafHash::from_byte_array([n; 32]) }
/// Entries of keys that no descriptor here has.
fn others() -> (BTreeMap<secp256k1::PublicKey, KeySource>, BTreeMap<XOnlyPublicKey, (Vec<TapLeafHash>, KeySource)>) {
    ([(kpk(11), ksrc(11))].into(), [(kx(10), (vec![leaf(1), leaf(2)], ksrc(10)))].into())
}
/// Leaf hashes noted earlier for the keys of the descriptor, one of them for another leaf.
fn part(w: &Want) -> BTreeMap<XOnlyPublicKey, (Vec<TapLeafHash>, KeySource)> {
    w.tap
        .iter()
        .flat_map(|t| t.orig.iter().skip(1))
        .map(|(x, (l, s))| (*x, ([l.iter().take(1).copied().collect(), vec![leaf(0), leaf(0xff)]].concat(), s.clone())))
        .collect()
}

fn had_input(i: &mut Input, had: Had, w: &Want) {
    match had {
        Had::Nothing => {}
        Had::Others => {
            i.unknown = unknowns();
            i.proprietary = props();
            (i.bip32_derivation, i.tap_key_origins) = others();
            i.sighash_type = Some(psbt_v2::PsbtSighashType::from_u32(0x83));
            i.partial_sigs.insert(pk(3), ecdsa_sig(3, EcdsaSighashType::All));
            i.redeem_script = Some(ScriptBuf::from_bytes(vec![0x51]));
            i.witness_script = Some(ScriptBuf::from_bytes(vec![0x52]));
            i.tap_internal_key = Some(kx(10));
            i.tap_merkle_root = Some(TapNodeHash::from_byte_array([9; 32]));
            i.tap_key_sig = Some(tap_sig(1, TapSighashType::Default));
            i.sha256_preimages.insert(h_sha256(b"x"), b"x".to_vec());
            i.final_script_sig = Some(ScriptBuf::from_bytes(vec![0x51]));
            i.final_script_witness = Some(Witness::from_slice(&[[1u8]]));
        }
        Had::Same => on_input(i, w),
        Had::Part => i.tap_key_origins = part(w),
    }
}
fn had_output(o: &mut Output, had: Had, w: &Want) {
    match had {
        Had::Nothing => {}
        Had::Others => {
            o.unknown = unknowns();
            o.proprietary = props();
            (o.bip32_derivation, o.tap_key_origins) = others();
            o.redeem_script = Some(ScriptBuf::from_bytes(vec![0x51]));
            o.witness_script = Some(ScriptBuf::from_bytes(vec![0x52]));
            o.tap_internal_key = Some(kx(10));
        }
        Had::Same => on_output(o, w),
        Had::Part => o.tap_key_origins = part(w),
    }
}

/// How the input names what it spends.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Utxo {
    Absent,
    Wit,
    Non,
    Both,
    /// The two disagree.
    Value,
    WitSpk,
    NonSpk,
    /// The previous transaction is another one with the same output.
    Txid,
    TxidBoth,
    /// The previous transaction has too few outputs.
    Vout,
    VoutBoth,
    /// The spent output is the one beside it.
    Beside,
}
use Utxo::*;
const UTXOS: [Utxo; 12] = [Utxo::Absent, Wit, Non, Both, Value, WitSpk, NonSpk, Txid, TxidBoth, Vout, VoutBoth, Beside];

fn parse(k: &Kind, form: &dyn Fn(Key) -> Kf) -> Result<Descriptor<DefiniteDescriptorKey>, String> {
    // The kind's text has each key in the `Raw` form.
    let mut t = k.text.clone();
    for key in &k.keys {
        t = t.replace(&text(*key, Kf::Raw), &format!("@{}{}@", key.i, key.unc));
    }
    for key in &k.keys {
        t = t.replace(&format!("@{}{}@", key.i, key.unc), &text(*key, form(*key)));
    }
    Descriptor::from_str(&t).map_err(|e| format!("{}: {}", t, e))
}

/// A PSBT whose input `ix` spends `spk` and whose output `ix` pays it.
fn psbt(n: usize, ix: usize, spk: &Script, u: Utxo) -> Psbt {
    let spks: Vec<_> = (0..n).map(|i| if i == ix { spk.to_owned() } else { p2wpkh(40 + i as u32) }).collect();
    let sp = spend(&spks, n, 2, 100, &vec![10; n]);
    let mut tx = sp.tx.clone();
    tx.output[ix].script_pubkey = spk.to_owned();
    let prev = sp.prev_tx[ix].clone();
    let here = tx.input[ix].previous_output.vout;
    let mut out = sp.prev[ix].clone();
    let (mut wit, mut non) = (false, false);
    let mut p_prev = prev.clone();
    match u {
        Utxo::Absent => {}
        Wit => wit = true,
        Non => non = true,
        Both => (wit, non) = (true, true),
        Value => {
            (wit, non) = (true, true);
            out.value = Amount::from_sat(out.value.to_sat() + 1);
        }
        WitSpk => {
            (wit, non) = (true, true);
            out.script_pubkey = p2wpkh(41);
        }
        NonSpk => {
            (wit, non) = (true, true);
            p_prev.output[here as usize].script_pubkey = p2wpkh(41);
            tx.input[ix].previous_output.txid = p_prev.compute_txid();
        }
        Txid | TxidBoth => {
            (wit, non) = (u == TxidBoth, true);
            p_prev.lock_time = absolute::LockTime::from_consensus(1);
        }
        Vout | VoutBoth => {
            (wit, non) = (u == VoutBoth, true);
            tx.input[ix].previous_output.vout = prev.output.len() as u32;
        }
        Beside => {
            non = true;
            tx.input[ix].previous_output.vout = (here + 1) % prev.output.len() as u32;
        }
    }
    let mut p = crate::fields::v0_from(tx).0;
    if wit {
        p.inputs[ix].witness_utxo = Some(out);
    }
    if non {
        p.inputs[ix].non_witness_utxo = Some(p_prev);
    }
    p
}

struct Case<'a> { k: &'a Kind, form: &'a dyn Fn(Key) -> Kf, actual: &'a Script, utxo: Utxo, had: Had, n: usize, ix: usize, by: &'a [(usize, usize)] }

fn check(ctx: &Ctx, c: &Case) -> Res {
    let k = c.k;
    let bad = k.keys.iter().any(|key| matches!((c.form)(*key), Kf::Hard | Kf::Multi));
    let d = match parse(k, c.form) {
        Ok(d) => d,
        Err(_) if bad => return Ok(()),
        Err(e) => return Err(format!("harness error: {}", e)),
    };
    let w = if bad { None } else { Some(want(k, c.form)) };
    let mut p = psbt(c.n, c.ix, c.actual, c.utxo);
    let empty = Want { redeem: None, wscript: None, derivs: BTreeMap::new(), tap: None };
    had_input(&mut p.inputs[c.ix], c.had, w.as_ref().unwrap_or(&empty));
    had_output(&mut p.outputs[c.ix], c.had, w.as_ref().unwrap_or(&empty));
    bystand(&mut p, c.by);
    let same = *c.actual == *k.spk && !bad;
    let utxo_ok = match c.utxo {
        Wit => k.segwit(),
        Non | Both => true,
        Utxo::Absent | Value | WitSpk | NonSpk | Txid | TxidBoth | Vout | VoutBoth | Beside => false,
    };
    // Inputs.
    let mut q = p.clone();
    ctx.step();
    let r = q.update_input_with_descriptor(c.ix, &d);
    let mut e = p.clone();
    if same && utxo_ok {
        on_input(&mut e.inputs[c.ix], w.as_ref().unwrap());
    }
    ctx.outcome(if r.is_ok() { "input updated" } else { "input refused" });
    if r.is_ok() != (same && utxo_ok) {
        return Err(format!("updating the input gives {:?}", r));
    }
    if q != e {
        return Err(format!("the input is {:?} instead of {:?}", q.inputs[c.ix], e.inputs[c.ix]));
    }
    if let Err(e) = &r {
        ctx.err(e)?;
    }
    // What was recorded can be written and read.
    if r.is_ok() && judge(Ver::V0, &q.ser()).1.is_none() {
        return Err("the updated PSBT is not well formed".into());
    }
    // Outputs.
    let mut q = p.clone();
    ctx.step();
    let r = q.update_output_with_descriptor(c.ix, &d);
    let mut e = p.clone();
    if same {
        on_output(&mut e.outputs[c.ix], w.as_ref().unwrap());
    }
    ctx.outcome(if r.is_ok() { "output updated" } else { "output refused" });
    if r.is_ok() != same {
        return Err(format!("updating the output gives {:?}", r));
    }
    if q != e {
        return Err(format!("the output is {:?} instead of {:?}", q.outputs[c.ix], e.outputs[c.ix]));
    }
    if let Err(e) = &r {
        ctx.err(e)?;
    }
    if r.is_ok() && judge(Ver::V0, &q.ser()).1.is_none() {
        return Err("the updated PSBT is not well formed".into());
    }
    // Without checks.
    ctx.steps(2);
    let mut q = p.clone();
    let ri = q.inputs[c.ix].update_with_descriptor_unchecked(&d);
    let ro = q.outputs[c.ix].update_with_descriptor_unchecked(&d);
    let mut e = p.clone();
    if let Some(w) = &w {
        on_input(&mut e.inputs[c.ix], w);
        on_output(&mut e.outputs[c.ix], w);
    }
    for r in [ri, ro] {
        match r {
            Ok(d) if !bad && d.script_pubkey() == k.spk => {}
            Err(e) if bad => ctx.err(&e)?,
            r => return Err(format!("updating without checks gives {:?}", r)),
        }
    }
    if q != e {
        return Err("updating without checks leaves other fields".into());
    }
    // Indices that do not exist.
    for ix in [c.n, c.n + 1, usize::MAX] {
        ctx.steps(2);
        let mut q = p.clone();
        match (q.update_input_with_descriptor(ix, &d), q.update_output_with_descriptor(ix, &d)) {
            (Err(a), Err(b)) => {
                ctx.err(&a)?;
                ctx.err(&b)?;
            }
            _ => return Err("an index out of range is accepted".into()),
        }
        if q != p {
            return Err("an index out of range changes something".into());
        }
    }
    ctx.state_h(&q);
    ctx.validated();
    Ok(())
}

/// Update, sign with the master key, finalise, verify.
fn whole(ctx: &Ctx, a: &Kind, b: &Kind, form: Kf, u: Utxo) -> Res {
    let spks = [a.spk.clone(), b.spk.clone()];
    let sp = spend(&spks, 1, 2, 100, &[10, 10]);
    let mut p = sp.v0();
    for (ix, k) in [a, b].into_iter().enumerate() {
        sp.fund(&mut p.inputs[ix], ix, match u {
            Wit if k.segwit() => Form::Wit,
            Both => Form::Both,
            _ => Form::Non,
        });
        for (hk, n) in &k.hashes {
            p.inputs[ix].put_pre(*hk, preimage(*n).to_vec(), &preimage(*n));
        }
        ctx.step();
        p.update_input_with_descriptor(ix, &parse(k, &|_| form)?).map_err(|e| format!("update fails: {}", e))?;
    }
    let mut p = Psbt::de(&p.ser()).map_err(|e| format!("updated PSBT does not parse: {}", e))?;
    ctx.step();
    if let Err((_, e)) = p.sign(&xpriv(7), secp()) {
        return Err(format!("signing fails: {:?}", e));
    }
    ctx.step();
    p.finalize_mall_mut(secp()).map_err(|e| format!("finalising fails: {:?}", e))?;
    ctx.step();
    let tx = p.extract(secp()).map_err(|e| format!("extracting fails: {}", e))?;
    interp::verify_all(&tx, &sp.prev)?;
    ctx.validated();
    Ok(())
}

/// Taproot trees of every shape up to `n` leaves; leaf scripts from `leaves`, by position.
fn shapes(n: usize) -> Vec<String> {
    fn trees(a: usize, b: usize) -> Vec<String> {
        if b - a == 1 {
            return vec![format!("#{}", a)];
        }
        let mut v = vec![];
        for m in a + 1..b {
            for l in trees(a, m) {
                for r in trees(m, b) {
                    v.push(format!("{{{},{}}}", l, r));
                }
            }
        }
        v
    }
    (1..=n).flat_map(|k| trees(0, k)).collect()
}

pub fn descriptors(ctx: &Ctx) {
    let mut names: Vec<String> = SIGN_KINDS.iter().chain(MORE_KINDS).map(|s| s.to_string()).collect();
    // Near misses of others.
    for s in ["wpkh(B)", "pkh(B)", "multi(1,B,A)", "sh(multi(2,A,C,B))", "sh(multi(1,A,B,C))", "wsh(multi(2,A,C,B))", "wsh(sortedmulti(2,B,A,C))", "sh(wsh(pk(A)))", "sh(wsh(pk(B)))",
        "tr(B)", "tr(A,pk(C))", "tr(B,pk(B))", "tr(A,pk(A))", "tr(A,{pk(C),pk(B)})", "tr(A,{pk(B),pk(B)})", "tr(A,{pk(B),{pk(B),pk(C)}})", "tr(A,{pk(A),{pk(B),pk(A)}})", "tr(A,multi_a(2,A,B,C))",
        "wsh(and_v(v:pk(A),older(9)))", "wsh(and_v(v:pk(B),sha256(h0)))", "wsh(and_v(v:pk(A),sha256(h1)))"] {
        names.push(s.into());
    }
    let few = names.len();
    let sets = [["pk(B)", "pk(C)", "pk(D)", "pk(E)", "pk(F)"], ["pk(B)", "multi_a(1,B,C)", "and_v(v:pk(C),pk(A))", "pkh(B)", "pk(D)"]];
    for s in shapes(if ctx.thorough { 5 } else { 4 }) {
        for set in sets {
            let mut t = s.clone();
            for (i, l) in set.iter().enumerate() {
                t = t.replace(&format!("#{}", i), l);
            }
            names.push(format!("tr(A,{})", t));
        }
    }
    let mut deep = "pk(B)".to_string();
    for i in 0..if ctx.thorough { 127 } else { 20 } {
        deep = if i % 2 == 0 { format!("{{{},pk(C)}}", deep) } else { format!("{{pk(D),{}}}", deep) };
    }
    // 127 levels with the same three scripts: control blocks are those of the shortest path.
    names.push(format!("tr(A,{})", deep));
    names.dedup();
    let ks: Vec<Kind> = names.iter().map(|n| kind(n)).collect();
    // The expectations themselves.
    for k in &ks {
        if let Some(t) = &k.tap {
            for l in &t.leaves {
                let (x, par) = leads_to(&l.control, &l.script);
                assert_eq!(k.spk.as_bytes()[2..], x.serialize(), "{}", k.name);
                assert_eq!(par, l.control.output_key_parity);
                assert_eq!(l.control.internal_key, t.internal.x());
            }
        }
    }
    ctx.bound("descriptors", ks.len());
    let hads = [Had::Nothing, Had::Others, Had::Same, Had::Part];
    // 1. Every descriptor, key form, UTXO form and previous content.
    for k in &ks {
        let forms: &[Kf] = if k.schnorr() { &XFORMS } else { &FORMS };
        let unc = k.keys.iter().any(|k| k.unc);
        let all: Vec<Kf> = if unc { vec![Kf::Raw, Kf::Orig] } else { forms.to_vec() };
        for f in &all {
            for mixed in [false, true] {
                // Mixed: each key in another form.
                if mixed && k.keys.len() < 2 {
                    continue;
                }
                let at = all.iter().position(|x| x == f).unwrap();
                let form = |key: Key| if mixed { all[(at + key.i as usize) % all.len()] } else { *f };
                for had in hads {
                    for utxo in if had == Had::Nothing { &UTXOS[..] } else { &[Wit, Non, WitSpk] } {
                        for (n, ix) in [(1, 0), (2, 0), (2, 1)] {
                            if n == 2 && had != Had::Nothing {
                                continue;
                            }
                            let c = Case { k, form: &form, actual: &k.spk, utxo: *utxo, had, n, ix, by: &[] };
                            ctx.case(|| format!("{} {:?}{} utxo {:?} had {:?} {} of {}", k.name, f, if mixed { " mixed" } else { "" }, utxo, had, ix, n), |ctx| check(ctx, &c));
                        }
                    }
                }
            }
        }
    }
    // 2. Every pair of descriptor and actual script.
    for k in &ks {
        for o in &ks[..few] {
            let c = Case { k, form: &|key| if key.unc { Kf::Raw } else { Kf::Xpub }, actual: &o.spk, utxo: Non, had: Had::Nothing, n: 1, ix: 0, by: &[] };
            ctx.case(|| format!("{} for {}", k.name, o.name), |ctx| check(ctx, &c));
        }
    }
    // 3. Keys that can not be derived, at each position.
    for k in &ks {
        for at in &k.keys {
            for f in [Kf::Hard, Kf::Multi] {
                for had in [Had::Nothing, Had::Others] {
                    let form = |key: Key| if key == *at { f } else if key.unc { Kf::Raw } else { Kf::Orig };
                    let c = Case { k, form: &form, actual: &k.spk, utxo: Both, had, n: 1, ix: 0, by: &[] };
                    ctx.case(|| format!("{} key {} {:?} had {:?}", k.name, at.i, f, had), |ctx| check(ctx, &c));
                }
            }
        }
    }
    // 4. An output without transaction output, an input without transaction input.
    let k = &ks[0];
    let d = parse(k, &|_| Kf::Raw).unwrap();
    for (ni, no) in [(0, 1), (1, 0), (0, 0), (1, 1)] {
        ctx.case(|| format!("{} inputs and {} outputs in the transaction", ni, no), |ctx| {
            let mut p = psbt(2, 1, &k.spk, Non);
            p.unsigned_tx.input.truncate(ni);
            p.unsigned_tx.output.truncate(no);
            let mut q = p.clone();
            ctx.steps(2);
            let (a, b) = (q.update_input_with_descriptor(1, &d), q.update_output_with_descriptor(1, &d));
            match (a, b) {
                (Err(a), Err(b)) => {
                    ctx.err(&a)?;
                    ctx.err(&b)?;
                }
                _ => return Err("updated a map that the transaction does not have".into()),
            }
            if p == q { Ok(()) } else { Err("changed".into()) }
        });
    }
    // 5. Other fields, and long transactions.
    let by = bystanders::<Psbt>(ctx.thorough, 2, 2, |a, _| match a.k {
        K::G => false,
        K::I => matches!(a.kv.t, 0 | 1 | 4 | 5 | 0x15 | 0x17 | 0x18),
        K::O => matches!(a.kv.t, 0 | 1 | 5 | 6),
    });
    ctx.bound("other fields", "every other field value of the table on either of two inputs and outputs");
    for (n, k) in ks[..few].iter().enumerate() {
        for (m, (name, b)) in by.iter().enumerate() {
            if (n + m) % if ctx.thorough { 2 } else { 8 } != 0 {
                continue;
            }
            for actual in [&k.spk, &ks[(n + 1) % few].spk] {
                let by = [*b];
                let c = Case { k, form: &|key| if key.unc { Kf::Raw } else { Kf::Orig }, actual, utxo: Both, had: Had::Nothing, n: 2, ix: 0, by: &by };
                ctx.case(|| format!("{} with {} right {}", k.name, name, *actual == k.spk), |ctx| check(ctx, &c));
            }
        }
        for ix in [127, 253, 255, 256, 299] {
            for utxo in [Both, NonSpk] {
                let c = Case { k, form: &|key| if key.unc { Kf::Raw } else { Kf::Orig }, actual: &k.spk, utxo, had: Had::Nothing, n: 300, ix, by: &[] };
                ctx.case(|| format!("{} {:?} {} of 300", k.name, utxo, ix), |ctx| check(ctx, &c));
            }
        }
    }
    // 6. What was recorded is enough for the master key to sign.
    let good: Vec<&Kind> = ks
        .iter()
        .filter(|k| !k.keys.iter().any(|k| k.unc))
        .filter(|k| k.pol.sat(&Env { sig: &|_| true, pre: &|_, _| true, lock: 100, seq: 10, ver: 2 }))
        .collect();
    ctx.bound("descriptors signed from", good.len());
    for a in &good {
        for b in if ctx.thorough { &good[..] } else { &good[..2] } {
            for f in [Kf::Orig, Kf::Xpub, Kf::Leafx] {
                for u in [Wit, Non, Both] {
                    ctx.case(|| format!("whole {} + {} {:?} {:?}", a.name, b.name, f, u), |ctx| whole(ctx, a, b, f, u));
                }
            }
        }
    }
}
