//! S01 and S02 (signing), S04 (PSBTv0 pre-signing checks).
use crate::fields::{complete, Atom, PsbtV};
use crate::interp::*;
use crate::model::*;
use crate::run::*;
use crate::spend::*;
use crate::util::*;
use crate::wire::*;
use bitcoin::hashes::Hash;
use bitcoin::secp256k1::{self, Message};
use bitcoin::sighash::{Prevouts, SighashCache};
use bitcoin::taproot::TapLeafHash;
use bitcoin::*;
use psbt_v2::{v0, v2};
use std::collections::{BTreeMap, BTreeSet};

/// One input to sign.
#[derive(Clone)]
struct In<'a> {
    kind: &'a Kind,
    form: Form,
    ty: Option<u32>,
    /// Redeem and witness script present.
    redeem: bool,
    wscript: bool,
    /// The scripts of the taproot leaves are listed.
    leaves: bool,
    /// Bit n: the n-th key of the kind is listed with its origin.
    listed: u32,
    /// Signatures already there: for the n-th slot, made with this type.
    pre: Vec<(usize, u8)>,
    /// The origins of the first two keys are swapped.
    swapped: bool,
}
impl<'a> In<'a> {
    fn new(kind: &'a Kind) -> Self {
        let form = if kind.segwit() { Form::Wit } else { Form::Non };
        In { kind, form, ty: None, redeem: true, wscript: true, leaves: true, listed: !0, pre: vec![], swapped: false }
    }
    fn show(&self) -> String {
        let mut s = format!("{} {:?}", self.kind.name, self.form);
        if let Some(t) = self.ty {
            s += &format!(" type {:#x}", t);
        }
        if !self.redeem {
            s += " no redeem script";
        }
        if !self.wscript {
            s += " no witness script";
        }
        if !self.leaves {
            s += " no leaf scripts";
        }
        if self.listed != !0 {
            s += &format!(" listed {:b}", self.listed);
        }
        if !self.pre.is_empty() {
            s += &format!(" signed {:?}", self.pre);
        }
        if self.swapped {
            s += " origins swapped";
        }
        s
    }
    fn put<I: InMap>(&self, i: &mut I, ix: usize, sp: &Spend) {
        describe(i, self.kind);
        sp.fund(i, ix, self.form);
        if !self.redeem {
            *i.redeem() = None;
        }
        if !self.wscript {
            *i.wscript() = None;
        }
        if !self.leaves {
            i.tap_scripts().clear();
        }
        i.set_type(self.ty);
        for (n, k) in self.kind.keys.iter().enumerate() {
            if self.listed >> n & 1 == 0 {
                i.derivs().remove(&kpk(k.i));
                i.tap_orig().remove(&k.x());
            }
        }
        if self.swapped && self.kind.keys.len() > 1 {
            let (a, b) = (self.kind.keys[0].i, self.kind.keys[1].i);
            for (x, y) in [(a, b), (b, a)] {
                if let Some(e) = i.derivs().get_mut(&kpk(x)) {
                    *e = ksrc(y);
                }
                if let Some(e) = i.tap_orig().get_mut(&kx(x)) {
                    e.1 = ksrc(y);
                }
            }
        }
        for (n, ty) in &self.pre {
            // The hash does not matter: it only has to stay what it is.
            match self.kind.slots[*n] {
                Slot::Ecdsa(k) => {
                    i.psigs().insert(k.pk(), ecdsa_sig(*n as u32, EcdsaSighashType::from_consensus(*ty as u32)));
                }
                Slot::Path => *i.tap_sig() = Some(tap_sig(5, TapSighashType::from_consensus_u8(*ty).unwrap())),
                Slot::Leaf(k, l) => {
                    i.tap_sigs().insert((kx(k), l), tap_sig(6, TapSighashType::from_consensus_u8(*ty).unwrap()));
                }
            }
        }
    }
    fn ecdsa_ty(&self) -> Option<u8> {
        match self.ty {
            None => Some(1),
            Some(t @ (1 | 2 | 3 | 0x81 | 0x82 | 0x83)) => Some(t as u8),
            _ => None,
        }
    }
    fn tap_ty(&self) -> Option<u8> {
        match self.ty {
            None => Some(0),
            Some(t @ (0 | 1 | 2 | 3 | 0x81 | 0x82 | 0x83)) => Some(t as u8),
            _ => None,
        }
    }
    fn known(&self) -> bool { self.form != Form::None }
    /// The scripts needed to compute an ECDSA hash are there.
    fn scripts(&self) -> bool {
        (self.kind.redeem.is_none() || self.redeem) && (self.kind.wscript.is_none() || self.wscript)
    }
    fn can_ecdsa(&self) -> bool { self.known() && self.kind.ot != Ot::Tr && self.scripts() && self.ecdsa_ty().is_some() }
    /// Listed keys that the provider gives for an ECDSA input.
    fn ecdsa_keys(&self, p: &Prov) -> Vec<Key> {
        let mut v: Vec<Key> = vec![];
        for (n, k) in self.kind.keys.iter().enumerate() {
            let k = Key { i: k.i, unc: p.unc >> k.i & 1 == 1 };
            if self.listed >> n & 1 == 1 && p.mask >> k.i & 1 == 1 && !v.contains(&k) {
                v.push(k);
            }
        }
        v
    }
}

/// The shape of the transaction and which versions it is tried with.
#[derive(Clone, Debug)]
struct Shape {
    n_out: usize,
    ver: i32,
    lock: u32,
    seq: u32,
    /// PSBTv2 only: a required lock time (height) on the last input, instead of `lock`.
    need: Option<u32>,
    /// Other fields, by number in the table, with the number of the map.
    by: Vec<(usize, usize)>,
}
const PLAIN: Shape = Shape { n_out: 2, ver: 2, lock: 0, seq: 0xffff_ffff, need: None, by: vec![] };

/// Sets fields that have nothing to do with what is checked.
pub fn bystand<P: PsbtV>(p: &mut P, by: &[(usize, usize)]) {
    for (a, ix) in by {
        for (j, b) in complete(&[(*ix, &P::atoms()[*a])]) {
            (b.set)(p, j);
        }
    }
}
/// Every field value and map for which `meant` does not say that the field is part of what is checked.
pub fn bystanders<P: PsbtV>(rare: bool, ins: usize, outs: usize, meant: impl Fn(&Atom<P>, usize) -> bool) -> Vec<(String, (usize, usize))> {
    let mut v = vec![];
    for (n, a) in P::atoms().iter().enumerate() {
        let maps = match a.k { K::G => 1, K::I => ins, K::O => outs };
        for ix in 0..maps {
            if (rare || !a.rare) && !meant(a, ix) {
                v.push((format!("{}@{}", a.name, ix), (n, ix)));
            }
        }
    }
    v
}

fn spend_of(ins: &[In], sh: &Shape) -> Spend {
    let spks: Vec<_> = ins.iter().map(|i| i.kind.spk.clone()).collect();
    let seqs: Vec<u32> = (0..ins.len()).map(|i| if i == 0 { sh.seq } else { sh.seq.wrapping_sub(i as u32) }).collect();
    spend(&spks, sh.n_out, sh.ver, sh.lock, &seqs)
}

/// Checks that rust-bitcoin computes the same hashes as this harness.
fn same_hash(ctx: &Ctx, k: &Kind, tx: &Transaction, ix: usize, prev: &[TxOut], ty: u8, own: [u8; 32]) -> Res {
    let mut c = SighashCache::new(tx);
    let t = EcdsaSighashType::from_consensus(ty as u32);
    let v = prev[ix].value;
    let h: [u8; 32] = match k.ot {
        Ot::Bare => c.legacy_signature_hash(ix, &k.spk, ty as u32).unwrap().to_byte_array(),
        Ot::Sh => c.legacy_signature_hash(ix, k.redeem.as_ref().unwrap(), ty as u32).unwrap().to_byte_array(),
        Ot::Wpkh => c.p2wpkh_signature_hash(ix, &k.spk, v, t).unwrap().to_byte_array(),
        Ot::ShWpkh => c.p2wpkh_signature_hash(ix, k.redeem.as_ref().unwrap(), v, t).unwrap().to_byte_array(),
        _ => c.p2wsh_signature_hash(ix, k.wscript.as_ref().unwrap(), v, t).unwrap().to_byte_array(),
    };
    ctx.validated();
    if h != own {
        return Err("harness error: own signature hash differs from rust-bitcoin's".into());
    }
    Ok(())
}

fn check_ecdsa(ctx: &Ctx, i: &In, ix: usize, tx: &Transaction, prev: &[TxOut], k: &PublicKey, s: &ecdsa::Signature) -> Res {
    let Some(ty) = i.ecdsa_ty() else { return Err(format!("input {}: signed with a sighash type it does not have", ix)) };
    if s.sighash_type as u32 != ty as u32 {
        return Err(format!("input {}: signature has type {:?}", ix, s.sighash_type));
    }
    let h = i.kind.ecdsa_hash(tx, ix, prev[ix].value.to_sat(), ty as u32);
    same_hash(ctx, i.kind, tx, ix, prev, ty, h)?;
    ctx.validated();
    secp()
        .verify_ecdsa(&Message::from_digest(h), &s.signature, &k.inner)
        .map_err(|e| format!("input {}: signature filed under {} does not verify: {}", ix, k, e))
}

fn names(v: impl Iterator<Item = PublicKey>) -> BTreeSet<String> { v.map(|k| k.to_string()).collect() }

fn v2_case(ctx: &Ctx, ins: &[In], sh: &Shape, prov: &Prov) -> Res {
    let sp = spend_of(ins, sh);
    let mut p = sp.v2();
    p.global.tx_modifiable_flags = 3;
    for (ix, i) in ins.iter().enumerate() {
        i.put(&mut p.inputs[ix], ix, &sp);
    }
    if let Some(h) = sh.need {
        p.inputs.last_mut().unwrap().min_height = Some(absolute::Height::from_consensus(h).unwrap());
    }
    bystand(&mut p, &sh.by);
    if p.determine_lock_time().is_err() && !sh.by.is_empty() {
        return Ok(());
    }
    // The transaction that will be extracted, from the wire form alone.
    let (_, w) = judge(Ver::V2, &p.ser());
    let tx = tx_of(&w.ok_or("harness error: PSBT is not well formed")?).ok_or("harness error: lock time")?;
    let mut cache = SighashCache::new(tx.clone());
    // Which inputs should be signed, and by which keys.
    let loose = |i: &In| i.swapped;
    let mut want_err = BTreeSet::new();
    for (ix, i) in ins.iter().enumerate() {
        if i.kind.ot != Ot::Tr && i.known() && !i.can_ecdsa() && !i.ecdsa_keys(prov).is_empty() {
            want_err.insert(ix);
        }
        let h = p.sighash_ecdsa(ix, &mut cache);
        ctx.step();
        match h {
            Ok((m, t)) if i.can_ecdsa() => {
                let ty = i.ecdsa_ty().unwrap();
                if m.as_ref() != &i.kind.ecdsa_hash(&tx, ix, sp.prev[ix].value.to_sat(), ty as u32) || t as u32 != ty as u32 {
                    return Err(format!("sighash helper for input {} gives {:?} with {:?}", ix, m, t));
                }
            }
            Ok(_) => return Err(format!("sighash helper succeeds for input {}", ix)),
            Err(e) if i.can_ecdsa() => return Err(format!("sighash helper fails for input {}: {}", ix, e)),
            Err(e) => ctx.err(&e)?,
        }
    }
    for e in p.sighash_ecdsa(ins.len(), &mut cache).err() {
        ctx.err(&e)?;
    }
    let r = v2::Signer::new(p.clone()).map_err(|e| e.to_string())?.sign(prov, secp());
    ctx.step();
    let (used, errs) = match &r {
        Ok((_, u)) => (u, BTreeSet::new()),
        Err((u, e)) => {
            for x in e.values() {
                ctx.err(x)?;
            }
            (u, e.keys().copied().collect())
        }
    };
    ctx.outcome(if r.is_err() { "error" } else if used.values().any(|v| !v.is_empty()) { "signed" } else { "nothing to sign" });
    if errs != want_err {
        return Err(format!("errors for inputs {:?}, expected {:?}", errs, want_err));
    }
    for (ix, i) in ins.iter().enumerate() {
        let got = names(used.get(&ix).into_iter().flatten().copied());
        let want = if i.can_ecdsa() { names(i.ecdsa_keys(prov).iter().map(|k| k.pk())) } else { BTreeSet::new() };
        if got != want && !loose(i) {
            return Err(format!("input {}: reported keys {:?}, expected {:?}", ix, got, want));
        }
        if used.get(&ix).map(|v| v.len() != got.len()).unwrap_or(false) && !loose(i) {
            return Err(format!("input {}: key reported twice", ix));
        }
    }
    if used.keys().any(|k| *k >= ins.len()) {
        return Err("keys reported for an input that is not there".into());
    }
    let Ok((q, _)) = &r else { return Ok(()) };
    let mut want = p.clone();
    want.global.tx_modifiable_flags = q.global.tx_modifiable_flags;
    for (ix, i) in ins.iter().enumerate() {
        for (k, s) in &q.inputs[ix].partial_sigs {
            if want.inputs[ix].partial_sigs.get(k) == Some(s) {
                continue;
            }
            check_ecdsa(ctx, i, ix, &tx, &sp.prev, k, s)?;
            if !used.get(&ix).map(|v| v.contains(k)).unwrap_or(false) {
                return Err(format!("input {}: signature of an unreported key {}", ix, k));
            }
            want.inputs[ix].partial_sigs.insert(*k, *s);
        }
        for k in used.get(&ix).into_iter().flatten() {
            let s = q.inputs[ix].partial_sigs.get(k).ok_or_else(|| format!("input {}: no signature of reported key {}", ix, k))?;
            check_ecdsa(ctx, i, ix, &tx, &sp.prev, k, s)?;
        }
    }
    if *q != want {
        return Err("another field changed".into());
    }
    ctx.state_h(q);
    Ok(())
}

fn v0_case(ctx: &Ctx, ins: &[In], sh: &Shape, prov: &Prov) -> Res {
    let sp = spend_of(ins, sh);
    let mut p = sp.v0();
    for (ix, i) in ins.iter().enumerate() {
        i.put(&mut p.inputs[ix], ix, &sp);
    }
    bystand(&mut p, &sh.by);
    let tx = &sp.tx;
    let mut cache = SighashCache::new(tx);
    let all_known = ins.iter().all(|i| i.known());
    // For taproot: the provider is asked for origins only.
    let by_origin = matches!(prov.ans, Ans::Bip32 | Ans::Both);
    let mut must_err = BTreeSet::new();
    let mut may_err = BTreeSet::new();
    let mut tap_ok = vec![false; ins.len()];
    for (ix, i) in ins.iter().enumerate() {
        if !i.known() {
            // Nobody can say what it needs.
            may_err.insert(ix);
        } else if i.kind.ot == Ot::Tr {
            let ty = i.tap_ty();
            tap_ok[ix] = ty.map(|t| (t & 0x80 != 0 || all_known) && (t & 3 != 3 || ix < tx.output.len())).unwrap_or(false);
            if !tap_ok[ix] {
                may_err.insert(ix);
                let keys = i.kind.keys.iter().enumerate().any(|(n, k)| i.listed >> n & 1 == 1 && prov.mask >> k.i & 1 == 1);
                // With every signature there already, there is nothing to fail at.
                if keys && by_origin && i.pre.is_empty() && !i.swapped {
                    must_err.insert(ix);
                }
            }
        } else if !i.can_ecdsa() && !i.ecdsa_keys(prov).is_empty() {
            must_err.insert(ix);
        }
        let h = p.sighash_ecdsa(ix, &mut cache);
        ctx.step();
        match h {
            Ok((m, t)) if i.can_ecdsa() => {
                let ty = i.ecdsa_ty().unwrap();
                if m.as_ref() != &i.kind.ecdsa_hash(tx, ix, sp.prev[ix].value.to_sat(), ty as u32) || t as u32 != ty as u32 {
                    return Err(format!("sighash helper for input {} gives {:?} with {:?}", ix, m, t));
                }
            }
            Ok(_) => return Err(format!("sighash helper succeeds for input {}", ix)),
            Err(e) if i.can_ecdsa() => return Err(format!("sighash helper fails for input {}: {}", ix, e)),
            Err(e) => ctx.err(&e)?,
        }
    }
    for e in p.sighash_ecdsa(ins.len(), &mut cache).err() {
        ctx.err(&e)?;
    }
    let mut q = p.clone();
    let r = q.sign(prov, secp());
    ctx.step();
    let (used, errs) = match &r {
        Ok(u) => (u, BTreeSet::new()),
        Err((u, e)) => {
            for x in e.values() {
                ctx.err(x)?;
            }
            (u, e.keys().copied().collect::<BTreeSet<_>>())
        }
    };
    ctx.outcome(if r.is_err() { "error" } else { "no error" });
    if !must_err.is_subset(&errs) || !errs.iter().all(|e| must_err.contains(e) || may_err.contains(e)) {
        return Err(format!("errors for inputs {:?}, expected {:?} and possibly {:?}", errs, must_err, may_err));
    }
    let mut want = p.clone();
    for (ix, i) in ins.iter().enumerate() {
        use v0::bitcoin::SigningKeys::*;
        let gi = &q.inputs[ix];
        let mut added: BTreeSet<String> = BTreeSet::new();
        // ECDSA
        for (k, s) in &gi.partial_sigs {
            if want.inputs[ix].partial_sigs.get(k) == Some(s) {
                continue;
            }
            if i.kind.ot == Ot::Tr || !i.can_ecdsa() {
                return Err(format!("input {}: unexpected ECDSA signature", ix));
            }
            check_ecdsa(ctx, i, ix, tx, &sp.prev, k, s)?;
            added.insert(k.to_string());
            want.inputs[ix].partial_sigs.insert(*k, *s);
        }
        // Schnorr
        let verify = |k: &XOnlyPublicKey, leaf: Option<TapLeafHash>, s: &taproot::Signature| -> Res {
            let Some(ty) = i.tap_ty() else { return Err(format!("input {}: signed with a type it does not have", ix)) };
            if s.sighash_type as u8 != ty {
                return Err(format!("input {}: signature has type {:?}", ix, s.sighash_type));
            }
            let h = sighash_tap(tx, ix, &sp.prev, leaf.map(|l| l.to_byte_array()), ty).ok_or("signed what has no hash")?;
            let theirs = {
                let mut c = SighashCache::new(tx);
                let po = Prevouts::All(&sp.prev);
                match leaf {
                    None => c.taproot_key_spend_signature_hash(ix, &po, s.sighash_type),
                    Some(l) => c.taproot_script_spend_signature_hash(ix, &po, l, s.sighash_type),
                }
            };
            ctx.validated();
            if theirs.map(|t| t.to_byte_array()) != Ok(h) {
                return Err("harness error: own signature hash differs from rust-bitcoin's".into());
            }
            ctx.validated();
            secp()
                .verify_schnorr(&s.signature, &Message::from_digest(h), k)
                .map_err(|e| format!("input {}: signature filed under {} {:?} does not verify: {}", ix, k, leaf, e))
        };
        let mut slots: BTreeSet<Slot> = BTreeSet::new();
        if gi.tap_key_sig != want.inputs[ix].tap_key_sig {
            let s = gi.tap_key_sig.ok_or("key path signature removed")?;
            if want.inputs[ix].tap_key_sig.is_some() {
                return Err(format!("input {}: key path signature replaced", ix));
            }
            let out = XOnlyPublicKey::from_slice(&i.kind.spk.as_bytes()[2..]).map_err(|e| e.to_string())?;
            verify(&out, None, &s)?;
            slots.insert(Slot::Path);
            want.inputs[ix].tap_key_sig = Some(s);
            added.insert(gi.tap_internal_key.unwrap().to_string());
        }
        for ((k, l), s) in &gi.tap_script_sigs {
            if want.inputs[ix].tap_script_sigs.get(&(*k, *l)) == Some(s) {
                continue;
            }
            if want.inputs[ix].tap_script_sigs.contains_key(&(*k, *l)) {
                return Err(format!("input {}: script path signature replaced", ix));
            }
            verify(k, Some(*l), s)?;
            let n = (0..NKEYS as u32).find(|n| kx(*n) == *k).ok_or("signature under an unknown key")?;
            slots.insert(Slot::Leaf(n, *l));
            want.inputs[ix].tap_script_sigs.insert((*k, *l), *s);
            added.insert(k.to_string());
        }
        if i.kind.ot == Ot::Tr && by_origin && !i.swapped {
            let mut must = BTreeSet::new();
            let mut may = BTreeSet::new();
            if tap_ok[ix] {
                for (x, (leaves, src)) in &p.inputs[ix].tap_key_origins {
                    let Some(n) = (0..NKEYS as u32).find(|n| ksrc(*n) == *src).filter(|n| prov.mask >> n & 1 == 1) else { continue };
                    if p.inputs[ix].tap_internal_key == Some(*x) && p.inputs[ix].tap_key_sig.is_none() {
                        // BIP-371 lists the internal key without leaves; when it is in a leaf too, either is fine.
                        if leaves.is_empty() { must.insert(Slot::Path) } else { may.insert(Slot::Path) };
                    }
                    for l in leaves {
                        if !p.inputs[ix].tap_script_sigs.contains_key(&(*x, *l)) {
                            must.insert(Slot::Leaf(n, *l));
                        }
                    }
                }
            }
            if !must.is_subset(&slots) || !slots.iter().all(|s| must.contains(s) || may.contains(s)) {
                return Err(format!("input {}: signed {:?}, expected {:?} and possibly {:?}", ix, slots, must, may));
            }
        }
        // Reports
        let got: Vec<String> = match used.get(&ix) {
            None => vec![],
            Some(Ecdsa(v)) if i.kind.ot != Ot::Tr => v.iter().map(|k| k.to_string()).collect(),
            Some(Schnorr(v)) if i.kind.ot == Ot::Tr => v.iter().map(|k| k.to_string()).collect(),
            Some(u) => return Err(format!("input {}: {:?} reported", ix, u)),
        };
        let set: BTreeSet<String> = got.iter().cloned().collect();
        if i.kind.ot == Ot::Tr {
            if set != added && !i.swapped {
                return Err(format!("input {}: reported keys {:?}, signed with {:?}", ix, set, added));
            }
        } else {
            // A signature may be made again.
            let want = if i.can_ecdsa() { names(i.ecdsa_keys(prov).iter().map(|k| k.pk())) } else { BTreeSet::new() };
            if set != want && !i.swapped {
                return Err(format!("input {}: reported keys {:?}, expected {:?}", ix, set, want));
            }
            if !added.is_subset(&set) {
                return Err(format!("input {}: signed with {:?} and reported {:?}", ix, added, set));
            }
            for k in used.get(&ix).into_iter().flat_map(|u| if let Ecdsa(v) = u { v.clone() } else { vec![] }) {
                let s = gi.partial_sigs.get(&k).ok_or_else(|| format!("input {}: no signature of reported key {}", ix, k))?;
                check_ecdsa(ctx, i, ix, tx, &sp.prev, &k, s)?;
            }
            if got.len() != set.len() && !i.swapped {
                return Err(format!("input {}: key reported twice", ix));
            }
        }
    }
    if used.keys().any(|k| *k >= ins.len()) {
        return Err("keys reported for an input that is not there".into());
    }
    if q != want {
        return Err("another field changed".into());
    }
    ctx.state_h(&q);
    Ok(())
}

type CaseFn = fn(&Ctx, &[In], &Shape, &Prov) -> Res;

const TYPES: [Option<u32>; 14] = [
    None, Some(1), Some(2), Some(3), Some(0x81), Some(0x82), Some(0x83), Some(0), Some(4), Some(0x50), Some(0x80), Some(0x84), Some(0x101), Some(u32::MAX),
];
const ANS: [Ans; 4] = [Ans::Bip32, Ans::Pubkey, Ans::Both, Ans::ErrThenKey];

fn masks(k: &Kind) -> Vec<u32> {
    let ids: BTreeSet<u32> = k.keys.iter().map(|k| k.i).collect();
    let ids: Vec<u32> = ids.into_iter().collect();
    (0..1u32 << ids.len()).map(|m| ids.iter().enumerate().filter(|(n, _)| m >> n & 1 == 1).map(|(_, i)| 1 << i).sum()).collect()
}
fn unc_mask(k: &Kind) -> u32 { k.keys.iter().filter(|k| k.unc).map(|k| 1 << k.i).sum() }

fn signing(ctx: &Ctx, f: CaseFn, v2: bool) {
    let kinds = kinds(SIGN_KINDS);
    let filler = kind("wpkh(L)");
    let filler_tr = kind("tr(L)");
    ctx.bound("output kinds", format!("{} descriptors over 12 keys", kinds.len()));
    ctx.bound("sighash types", "unset, the 6 standard ones, 0, 4, 0x50, 0x80, 0x84, 0x101, 0xffffffff");
    ctx.bound("key providers", "every subset of the keys, answering origins, public keys, both, or failing on origins");
    let run = |ins: &[In], sh: &Shape, pr: &Prov| {
        ctx.case(
            || {
                let l: Vec<String> = ins.iter().map(|i| i.show()).collect();
                format!("{} | {:?} | keys {:#x} unc {:#x} {:?}", l.join(" + "), sh, pr.mask, pr.unc, pr.ans)
            },
            |ctx| f(ctx, ins, sh, pr),
        )
    };
    const L: u32 = 1 << 11;
    // Where the input is: position and number of inputs and outputs, so that SINGLE has a matching output or not.
    let places: &[(usize, usize, usize)] = &[(1, 0, 1), (1, 0, 2), (2, 1, 1), (2, 1, 2), (2, 0, 0), (3, 1, 1), (3, 2, 3)];
    for k in &kinds {
        for form in [Form::Wit, Form::Non, Form::Both, Form::None] {
            for ty in TYPES {
                for m in masks(k) {
                    for ans in ANS {
                        for (np, (n, pos, n_out)) in places.iter().enumerate() {
                            let full = ans == Ans::Both || (form == Form::Wit && ty == None);
                            if !full && np != 0 && !ctx.thorough {
                                continue;
                            }
                            let mut ins = vec![In::new(&filler); *n];
                            ins[*pos] = In { form, ty, ..In::new(k) };
                            let pr = Prov { mask: m | if np % 2 == 0 { L } else { 0 }, ans, unc: unc_mask(k) };
                            run(&ins, &Shape { n_out: *n_out, ..PLAIN }, &pr);
                        }
                    }
                }
            }
        }
    }
    // Scripts missing, keys not listed, signatures already there, wrong origins, other key form.
    for k in &kinds {
        let full: u32 = k.keys.iter().map(|k| 1 << k.i).fold(0, |a, b| a | b);
        let mut vars: Vec<In> = vec![];
        for (r, w) in [(true, false), (false, true), (false, false)] {
            if (r || k.redeem.is_some()) && (w || k.wscript.is_some()) {
                vars.push(In { redeem: r, wscript: w, ..In::new(k) });
            }
        }
        for listed in 0..1u32 << k.keys.len() {
            vars.push(In { listed, ..In::new(k) });
            if k.ot == Ot::Tr {
                vars.push(In { listed, leaves: false, ..In::new(k) });
            }
        }
        for n in 0..k.slots.len() {
            for ty in [1, 2, 0x81] {
                vars.push(In { pre: vec![(n, ty)], ..In::new(k) });
            }
        }
        vars.push(In { pre: (0..k.slots.len()).map(|n| (n, 1)).collect(), ..In::new(k) });
        vars.push(In { swapped: true, ..In::new(k) });
        for v in &vars {
            for ty in if ctx.thorough { &TYPES[..] } else { &TYPES[..8] } {
                for m in masks(k) {
                    for ans in ANS {
                        run(&[In { ty: *ty, ..v.clone() }], &PLAIN, &Prov { mask: m, ans, unc: unc_mask(k) });
                    }
                }
            }
            for ans in ANS {
                run(&[In::new(&filler), v.clone(), v.clone()], &PLAIN, &Prov { mask: full | L, ans, unc: unc_mask(k) });
                run(&[v.clone()], &PLAIN, &Prov { mask: full, ans, unc: full });
                run(&[v.clone()], &PLAIN, &Prov { mask: full, ans, unc: 0 });
            }
        }
    }
    // Transaction shapes.
    let shapes = [
        Shape { ver: 1, ..PLAIN }, Shape { ver: 0, ..PLAIN }, Shape { ver: -1, ..PLAIN }, Shape { ver: 3, lock: 1, ..PLAIN },
        Shape { lock: 500, seq: 0xffff_fffe, ..PLAIN }, Shape { lock: 1_600_000_000, seq: 5, ..PLAIN },
        Shape { seq: 0x0040_0003, ..PLAIN }, Shape { n_out: 0, ..PLAIN }, Shape { n_out: 4, ..PLAIN },
        Shape { lock: 7, need: Some(900), ..PLAIN }, Shape { need: Some(1), seq: 1, ..PLAIN },
    ];
    for sh in &shapes {
        if sh.need.is_some() && !v2 {
            continue;
        }
        for k in &kinds {
            for ty in &TYPES[..7] {
                let full: u32 = k.keys.iter().map(|k| 1 << k.i).fold(0, |a, b| a | b);
                let pr = Prov { mask: full | L, ans: Ans::Both, unc: unc_mask(k) };
                run(&[In { ty: *ty, ..In::new(k) }, In::new(&filler)], sh, &pr);
                run(&[In::new(&filler_tr), In { ty: *ty, ..In::new(k) }], sh, &pr);
            }
        }
    }
    // Combinations of inputs: every pair of kinds and types; every triple of a smaller set.
    let types: &[Option<u32>] = if ctx.thorough { &TYPES[..7] } else { &[None, Some(3), Some(0x82)] };
    for a in &kinds {
        for b in &kinds {
            for ta in types {
                for tb in types {
                    for form_b in [Form::Both, Form::None] {
                        let ins = [In { ty: *ta, ..In::new(a) }, In { ty: *tb, form: form_b, ..In::new(b) }];
                        let all: u32 = [a, b].iter().flat_map(|k| &k.keys).map(|k| 1 << k.i).fold(0, |a, b| a | b);
                        for mask in [all, 1 << b.keys[0].i, 0b10] {
                            run(&ins, &Shape { n_out: 1, ..PLAIN }, &Prov { mask, ans: Ans::Both, unc: unc_mask(a) | unc_mask(b) });
                        }
                    }
                }
            }
        }
    }
    let small: Vec<&Kind> = kinds.iter().filter(|k| ["pkh(A)", "sh(multi(2,A,B,C))", "wpkh(A)", "sh(wpkh(A))", "wsh(multi(2,A,B,C))", "tr(A)", "tr(A,{pk(B),pk(C)})"].contains(&k.name.as_str())).collect();
    let tri: &[Option<u32>] = if ctx.thorough { &[None, Some(2), Some(3), Some(0x81), Some(0x83), Some(4)] } else { &[None, Some(3), Some(4)] };
    let cells: Vec<In> = small.iter().flat_map(|k| tri.iter().map(|t| In { ty: *t, ..In::new(k) })).collect();
    ctx.bound("combinations of inputs", format!("all pairs of kinds with {} types each; all triples of {} inputs", types.len(), cells.len()));
    for a in &cells {
        for b in &cells {
            for c in &cells {
                run(&[a.clone(), b.clone(), c.clone()], &PLAIN, &Prov::new(7, Ans::Both));
            }
        }
    }
}

/// Other fields are there, and more inputs and outputs than fit into a byte.
fn crowd(ctx: &Ctx, f: CaseFn, v2: bool) {
    const L: u32 = 1 << 11;
    let kinds = kinds(SIGN_KINDS);
    let filler = kind("wpkh(L)");
    ctx.bound("other fields", "every other field value on the input signed, another input, outputs and the global map");
    for k in &kinds {
        let full: u32 = k.keys.iter().map(|k| 1 << k.i).fold(0, |a, b| a | b);
        let pr = Prov { mask: full | L, ans: Ans::Both, unc: unc_mask(k) };
        fn meant<P>(a: &Atom<P>, tr: bool) -> bool {
            a.k == K::I && (matches!(a.kv.t, 0 | 1 | 3 | 4 | 5 | 7 | 8 | 0x0e | 0x0f) || tr && matches!(a.kv.t, 0x17 | 0x18))
        }
        let tr = k.ot == Ot::Tr;
        let rare = ctx.thorough && ["wpkh(A)", "pkh(A)"].contains(&k.name.as_str());
        let by = if v2 {
            bystanders::<v2::Psbt>(rare, 2, 2, |a, ix| meant(a, tr && ix == 0))
        } else {
            bystanders::<v0::Psbt>(rare, 2, 2, |a, ix| meant(a, tr && ix == 0))
        };
        for (name, b) in by {
            ctx.case(
                || format!("{} with {}", k.name, name),
                |ctx| f(ctx, &[In::new(k), In::new(&filler)], &Shape { by: vec![b], ..PLAIN }, &pr),
            );
        }
    }
    let wide: &[usize] = if ctx.thorough { &[0, 1, 127, 128, 252, 253, 254, 255, 256, 257, 299] } else { &[0, 253, 255, 256, 299] };
    ctx.bound("long transactions", format!("300 inputs; signed: inputs {:?}; 256, 257, 300 outputs", wide));
    for k in &kinds {
        let full: u32 = k.keys.iter().map(|k| 1 << k.i).fold(0, |a, b| a | b);
        for at in wide {
            for (n, ty) in [None, Some(3), Some(0x83)].into_iter().enumerate() {
                ctx.case(
                    || format!("300 inputs, {} at {} type {:x?}", k.name, at, ty),
                    |ctx| {
                        let mut ins = vec![In { listed: 0, ..In::new(&filler) }; 300];
                        ins[*at] = In { ty, ..In::new(k) };
                        let sh = Shape { n_out: [300, 256, 257][(n + at) % 3], ..PLAIN };
                        f(ctx, &ins, &sh, &Prov { mask: full, ans: Ans::Both, unc: unc_mask(k) })
                    },
                );
            }
        }
    }
    ctx.case(
        || "300 inputs, all signed".into(),
        |ctx| f(ctx, &vec![In::new(&filler); 300], &PLAIN, &Prov { mask: L, ans: Ans::Both, unc: 0 }),
    );
}

pub fn sign_v2(ctx: &Ctx) { signing(ctx, v2_case, true); crowd(ctx, v2_case, true); odd(ctx); }
pub fn sign_v0(ctx: &Ctx) { signing(ctx, v0_case, false); crowd(ctx, v0_case, false); odd(ctx); }

/// Outputs nobody knows how to sign, and UTXOs that are not where they should be: no taproot signature, no panic.
fn odd(ctx: &Ctx) {
    let spks: Vec<Vec<u8>> = vec![
        vec![], vec![0x6a], vec![0x52, 2, 1, 1], [&[0x51, 2][..], &[0x4e, 0x73]].concat(), [&[0, 20][..], &[7; 20]].concat(),
        [&[0xa9, 20][..], &[7; 20], &[0x87]].concat(), [&[0x51, 32][..], &[7; 32]].concat(), [&[0x60, 40][..], &[7; 40]].concat(),
        vec![0x4c], vec![0; 600], [&[0, 32][..], &[1; 32]].concat(), [&[0, 30][..], &[1; 30]].concat(),
    ];
    let scripts: Vec<Option<ScriptBuf>> = vec![
        None, Some(ScriptBuf::new()), Some(p2wpkh(1)), Some(ScriptBuf::from_bytes([&[0, 32][..], &[9; 32]].concat())), Some(p2pkh(2)),
        Some(ScriptBuf::from_bytes(vec![0x4e, 0xff])),
    ];
    ctx.bound("unusual outputs", format!("{} scripts with {} redeem and witness scripts each", spks.len(), scripts.len()));
    for s in &spks {
        for r in &scripts {
            for w in &scripts {
                for vout in [0u32, 1, 5, u32::MAX] {
                    for wit in [false, true] {
                        ctx.case(
                            || format!("odd {} {:?} {:?} {} {}", hex(s), r, w, vout, wit),
                            |ctx| {
                                let mut sp = spend(&[ScriptBuf::from_bytes(s.clone()), p2wpkh(3)], 1, 2, 0, &[0xffff_ffff; 2]);
                                sp.tx.input[0].previous_output.vout = vout;
                                let mut a = sp.v0();
                                let mut b = sp.v2();
                                fn fill<I: InMap>(i: &mut I, sp: &Spend, wit: bool, r: &Option<ScriptBuf>, w: &Option<ScriptBuf>) {
                                    sp.fund(i, 0, if wit { Form::Wit } else { Form::Non });
                                    *i.redeem() = r.clone();
                                    *i.wscript() = w.clone();
                                    i.derivs().insert(kpk(0), ksrc(0));
                                    i.tap_orig().insert(kx(0), (vec![TapLeafHash::all_zeros()], ksrc(0)));
                                    *i.tap_int() = Some(kx(0));
                                }
                                fill(&mut a.inputs[0], &sp, wit, r, w);
                                fill(&mut b.inputs[0], &sp, wit, r, w);
                                sp.fund(&mut a.inputs[1], 1, Form::Wit);
                                sp.fund(&mut b.inputs[1], 1, Form::Wit);
                                let pr = Prov::new(1, Ans::Both);
                                let r0 = a.sign(&pr, secp());
                                for e in r0.err().into_iter().flat_map(|(_, e)| e.into_values()) {
                                    ctx.err(&e)?;
                                }
                                let r2 = v2::Signer::new(b).map_err(|e| e.to_string())?.sign(&pr, secp());
                                for e in r2.err().into_iter().flat_map(|(_, e)| e.into_values()) {
                                    ctx.err(&e)?;
                                }
                                if let Err(e) = a.signer_checks() {
                                    ctx.err(&e)?;
                                }
                                // Outputs that are not taproot ones are not signed as if they were.
                                let i = &a.inputs[0];
                                if !(s.len() == 34 && s[..2] == [0x51, 32]) && (i.tap_key_sig.is_some() || !i.tap_script_sigs.is_empty()) {
                                    return Err("a taproot signature for an output that is not taproot".into());
                                }
                                ctx.steps(3);
                                ctx.outcome("no panic");
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- S04

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fd { Wit, Non, Both, Missing, NonOther, BothOther, NonShort, NonVout }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Sc { Absent, Right, Legacy, Wpkh, Wsh, Flip, Empty }

#[derive(Clone, Copy)]
struct Chk<'a> { kind: &'a Kind, fd: Fd, redeem: Sc, wscript: Sc }

/// What must happen: accept, reject, or either.
fn chk_put(c: &Chk, i: &mut v0::bitcoin::Input, ix: usize, sp: &Spend, tx: &mut Transaction) -> Option<bool> {
    let t = sp.prev_tx[ix].clone();
    let other = {
        // Same outputs, another id.
        let mut o = t.clone();
        o.input[0].sequence = Sequence(77);
        o
    };
    let vout = tx.input[ix].previous_output.vout as usize;
    let mut utxo = Some(sp.prev[ix].clone());
    match c.fd {
        Fd::Wit => i.witness_utxo = utxo.clone(),
        Fd::Non => i.non_witness_utxo = Some(t),
        Fd::Both => {
            i.witness_utxo = utxo.clone();
            i.non_witness_utxo = Some(t);
        }
        Fd::Missing => utxo = None,
        Fd::NonOther => i.non_witness_utxo = Some(other),
        Fd::BothOther => {
            i.witness_utxo = utxo.clone();
            i.non_witness_utxo = Some(other);
        }
        Fd::NonShort => {
            // The right transaction, but the outpoint names an output it does not have.
            tx.input[ix].previous_output.vout = t.output.len() as u32;
            i.non_witness_utxo = Some(t);
            utxo = None;
        }
        Fd::NonVout => {
            // The outpoint names another output of the right transaction.
            let v = (vout + 1) % t.output.len();
            tx.input[ix].previous_output.vout = v as u32;
            utxo = Some(t.output[v].clone());
            i.non_witness_utxo = Some(t);
        }
    }
    let make = |s: Sc, right: &Option<ScriptBuf>| -> Option<ScriptBuf> {
        let r = right.clone().unwrap_or_else(|| ScriptBuf::from_bytes(vec![0x51]));
        match s {
            Sc::Absent => None,
            Sc::Right => Some(r),
            Sc::Legacy => Some(p2pkh(77)),
            Sc::Wpkh => Some(p2wpkh(77)),
            Sc::Wsh => Some(ScriptBuf::from_bytes([&[0, 32][..], &[9; 32]].concat())),
            Sc::Flip => {
                let mut b = r.into_bytes();
                let n = b.len() - 1;
                b[n] ^= 1;
                Some(ScriptBuf::from_bytes(b))
            }
            Sc::Empty => Some(ScriptBuf::new()),
        }
    };
    i.redeem_script = make(c.redeem, &c.kind.redeem);
    i.witness_script = make(c.wscript, &c.kind.wscript);
    if matches!(c.fd, Fd::NonOther | Fd::BothOther) {
        return Some(false);
    }
    let Some(u) = utxo else { return None };
    let s = u.script_pubkey.as_bytes();
    let p2sh = s.len() == 23 && s[0] == 0xa9 && s[1] == 20 && s[22] == 0x87;
    let prog = |b: &[u8]| (4..=42).contains(&b.len()) && (b[0] == 0 || (0x51..=0x60).contains(&b[0])) && b[1] as usize == b.len() - 2;
    if let Some(r) = &i.redeem_script {
        if !p2sh || h_hash160(r.as_bytes()).to_byte_array()[..] != s[2..22] {
            return Some(false);
        }
    }
    if i.witness_utxo.is_some() {
        let legacy = if p2sh { i.redeem_script.as_ref().map(|r| !prog(r.as_bytes())) } else { Some(!prog(s)) };
        match legacy {
            Some(true) => return Some(false),
            Some(false) => {}
            None if i.witness_script.is_some() => return None,
            None => {}
        }
    }
    if let Some(w) = &i.witness_script {
        let want = [&[0, 32][..], &sha(w.as_bytes())].concat();
        if p2sh {
            match &i.redeem_script {
                Some(r) if r.as_bytes() != &want[..] => return Some(false),
                Some(_) => {}
                // Nothing to compare it with.
                None => return None,
            }
        } else if s.len() == 34 && s[0] == 0 {
            if s != &want[..] {
                return Some(false);
            }
        } else {
            // A witness script beside an output that has none.
            return None;
        }
    }
    Some(true)
}

pub fn signer_checks(ctx: &Ctx) {
    let ks = kinds(&["pk(A)", "pkh(A)", "multi(1,A,B)", "sh(multi(2,A,B,C))", "sh(pkh(A))", "wpkh(A)", "wsh(multi(2,A,B,C))", "wsh(pk(A))", "sh(wpkh(A))", "sh(wsh(multi(1,A,B)))", "sh(wsh(pkh(A)))", "tr(A)", "tr(A,pk(B))"]);
    let fds = [Fd::Wit, Fd::Non, Fd::Both, Fd::Missing, Fd::NonOther, Fd::BothOther, Fd::NonShort, Fd::NonVout];
    let scs = [Sc::Absent, Sc::Right, Sc::Legacy, Sc::Wpkh, Sc::Wsh, Sc::Flip, Sc::Empty];
    let mut all = vec![];
    for kind in &ks {
        for fd in fds {
            for redeem in scs {
                for wscript in scs {
                    all.push(Chk { kind, fd, redeem, wscript });
                }
            }
        }
    }
    let show = |c: &Chk| format!("{} {:?} redeem {:?} witness {:?}", c.kind.name, c.fd, c.redeem, c.wscript);
    let good = |k: &Kind| if k.segwit() { Fd::Both } else { Fd::Non };
    let honest: Vec<Chk> = ks
        .iter()
        .map(|kind| Chk {
            kind,
            fd: good(kind),
            redeem: if kind.redeem.is_some() { Sc::Right } else { Sc::Absent },
            wscript: if kind.wscript.is_some() { Sc::Right } else { Sc::Absent },
        })
        .collect();
    let run_by = |cs: &[&Chk], name: &str, by: &[(usize, usize)]| {
        ctx.case(
            || if cs.len() > 9 { format!("{} inputs, {}", cs.len(), name) } else { cs.iter().map(|c| show(c)).collect::<Vec<_>>().join(" + ") + name },
            |ctx| {
                let spks: Vec<_> = cs.iter().map(|c| c.kind.spk.clone()).collect();
                let sp = spend(&spks, 1, 2, 0, &vec![0xffff_ffff; cs.len()]);
                let mut p = sp.v0();
                let mut tx = sp.tx.clone();
                let mut want = Some(true);
                for (ix, c) in cs.iter().enumerate() {
                    let w = chk_put(c, &mut p.inputs[ix], ix, &sp, &mut tx);
                    want = match (want, w) {
                        (Some(false), _) | (_, Some(false)) => Some(false),
                        (None, _) | (_, None) => None,
                        _ => Some(true),
                    };
                }
                p.unsigned_tx = tx;
                bystand(&mut p, by);
                let before = p.clone();
                let r = p.signer_checks();
                ctx.step();
                ctx.outcome(match (&r, want) { (Ok(_), Some(_)) => "accepted", (Err(_), Some(_)) => "rejected", _ => "left open" });
                if let Err(e) = &r {
                    ctx.err(e)?;
                }
                if p != before {
                    return Err("the PSBT changed".into());
                }
                if want.map(|w| w != r.is_ok()).unwrap_or(false) {
                    return Err(format!("{:?}, expected {}", r, if want == Some(true) { "success" } else { "an error" }));
                }
                ctx.state_h(&p);
                ctx.validated();
                Ok(())
            },
        )
    };
    let run = |cs: &[&Chk]| run_by(cs, "", &[]);
    // Other fields, beside honest and dishonest inputs.
    ctx.bound("other fields", "every field value but UTXOs and scripts on either of two inputs, outputs and the global map");
    for (n, (name, b)) in bystanders::<v0::Psbt>(false, 2, 1, |a, _| a.k == K::I && matches!(a.kv.t, 0 | 1 | 4 | 5)).into_iter().enumerate() {
        let name = format!(" with {}", name);
        for (m, c) in honest.iter().enumerate() {
            run_by(&[c, &honest[(m + 1) % honest.len()]], &name, &[b]);
            for bad in [Chk { fd: Fd::BothOther, ..*c }, Chk { redeem: Sc::Flip, ..*c }, Chk { wscript: Sc::Flip, ..*c }, Chk { fd: Fd::Wit, ..*c }] {
                if ctx.thorough || (n + m) % 3 == 0 {
                    run_by(&[&bad, c], &name, &[b]);
                    run_by(&[c, &bad], &name, &[b]);
                }
            }
        }
    }
    // Long transactions.
    for c in &honest {
        for (k, bad) in [Chk { fd: Fd::BothOther, ..*c }, Chk { redeem: Sc::Flip, ..*c }, Chk { wscript: Sc::Flip, ..*c }, Chk { fd: Fd::Wit, ..*c }, *c].iter().enumerate() {
            for at in [0usize, 127, 253, 255, 256, 257, 299] {
                let mut v = vec![&honest[5]; 300];
                v[at] = bad;
                run_by(&v, &format!("{} #{} at {}", c.kind.name, k, at), &[]);
            }
        }
    }
    ctx.bound("inputs", "every kind of output x UTXO form x redeem script x witness script, alone and in every place beside honest inputs");
    for c in &all {
        run(&[c]);
        for h in &honest {
            run(&[c, h]);
            run(&[h, c]);
            if ctx.thorough {
                for g in &honest {
                    run(&[h, c, g]);
                    run(&[h, g, c]);
                }
            }
        }
    }
    let red: Vec<&Chk> = all.iter().filter(|c| ![Sc::Flip, Sc::Empty, Sc::Wpkh].contains(&c.redeem) && ![Sc::Flip, Sc::Empty, Sc::Wsh, Sc::Wpkh].contains(&c.wscript)).filter(|c| ctx.thorough || [Fd::Wit, Fd::Non, Fd::BothOther].contains(&c.fd)).collect();
    ctx.bound("pairs of inputs", format!("all pairs of {} inputs", red.len()));
    for a in &red {
        for b in &red {
            run(&[a, b]);
        }
    }
    odd(ctx);
}

#[allow(dead_code)]
fn unused(_: BTreeMap<secp256k1::PublicKey, ()>) {}
