//! F01 and F04: finalising and extracting.
use crate::c_sign::{bystand, bystanders};
use crate::fields::{Atom, PsbtV};
use crate::interp;
use crate::model::*;
use crate::run::*;
use crate::spend::*;
use crate::util::*;
use crate::wire::*;
use bitcoin::hashes::Hash;
use bitcoin::secp256k1::{self, Message};
use bitcoin::sighash::SighashCache;
use bitcoin::*;
use psbt_v2::v0::miniscript::PsbtExt;
use psbt_v2::{v0, v2};

/// State of one signature slot.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Sg {
    No,
    Valid,
    /// Valid, but made with this sighash type.
    Type(u8),
    /// A signature of another message.
    OtherMsg,
    /// Made by another key.
    OtherKey,
    /// Valid for another input of the same transaction, or another amount.
    Elsewhere,
    /// Valid for another sighash type than the one it carries.
    WrongByte,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Pre { No, Right, Wrong, Long, Short }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Sc { Right, Missing, Wrong, Extra }
/// What is done to the taproot data.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Tp { Full, NoOrigins, NoScripts, OneScript(usize), SwapControl, WrongInternal, NoInternal, Version }

#[derive(Clone)]
struct Fin<'a> {
    kind: &'a Kind,
    form: Form,
    sigs: Vec<Sg>,
    pres: Vec<Pre>,
    /// Sighash type of the signatures, and the one the input declares.
    ty: u8,
    decl: Option<u32>,
    redeem: Sc,
    wscript: Sc,
    tap: Tp,
    /// The key origins are listed.
    origins: bool,
    /// Keys of no part of the script have signed as well, and are listed (or not).
    guests: Option<bool>,
}
impl<'a> Fin<'a> {
    fn full(kind: &'a Kind) -> Self {
        Fin {
            kind,
            form: if kind.segwit() { Form::Wit } else { Form::Non },
            sigs: vec![Sg::Valid; kind.slots.len()],
            pres: vec![Pre::Right; kind.hashes.len()],
            ty: if kind.schnorr() { 0 } else { 1 },
            decl: None,
            redeem: Sc::Right,
            wscript: Sc::Right,
            tap: Tp::Full,
            origins: true,
            guests: None,
        }
    }
    fn none(kind: &'a Kind) -> Self { Fin { sigs: vec![Sg::No; kind.slots.len()], ..Fin::full(kind) } }
    fn subset(kind: &'a Kind, sigs: u32, pres: u32) -> Self {
        let mut f = Fin::full(kind);
        f.sigs.iter_mut().enumerate().for_each(|(i, s)| if sigs >> i & 1 == 0 { *s = Sg::No });
        f.pres.iter_mut().enumerate().for_each(|(i, s)| if pres >> i & 1 == 0 { *s = Pre::No });
        f
    }
    fn typed(kind: &'a Kind, ty: u8, decl: Option<u32>) -> Self { Fin { ty, decl, ..Fin::full(kind) } }
    fn show(&self) -> String {
        let mut s = format!("{} {:?} ", self.kind.name, self.form);
        for g in &self.sigs {
            s += &match g {
                Sg::No => "-".to_string(),
                Sg::Valid => "+".into(),
                g => format!("[{:?}]", g),
            };
        }
        for p in &self.pres {
            s += &match p {
                Pre::No => " no-preimage".to_string(),
                Pre::Right => "".into(),
                p => format!(" preimage-{:?}", p),
            };
        }
        s += &format!(" {:#x}", self.ty);
        if let Some(d) = self.decl {
            s += &format!("/{:#x}", d);
        }
        for (n, c) in [("redeem", self.redeem), ("witness", self.wscript)] {
            if c != Sc::Right {
                s += &format!(" {} script {:?}", n, c);
            }
        }
        if self.tap != Tp::Full {
            s += &format!(" {:?}", self.tap);
        }
        if !self.origins {
            s += " no origins";
        }
        if let Some(l) = self.guests {
            s += if l { " and others" } else { " and others without origins" };
        }
        s
    }
    fn sig(&self, n: usize, tx: &Transaction, ix: usize, prev: &[TxOut]) -> Option<Sig> {
        let k = self.kind;
        let slot = k.slots[n];
        let flip = |s: Sig, other: bool| -> Sig {
            // The same message signed by another key, or another message signed by the right key.
            let m = Message::from_digest(sha(b"another message"));
            let (Slot::Ecdsa(Key { i, .. }) | Slot::Leaf(i, _)) = slot else {
                let Sig::Path(mut t) = s else { unreachable!() };
                let kp = secp256k1::Keypair::from_secret_key(secp(), &ksk(9));
                t.signature = secp().sign_schnorr_no_aux_rand(&m, &kp);
                return Sig::Path(t);
            };
            let key = if other { ksk(11) } else { ksk(i) };
            match s {
                Sig::Ecdsa(p, mut e) => {
                    let h = if other { Message::from_digest(k.ecdsa_hash(tx, ix, prev[ix].value.to_sat(), self.ty as u32)) } else { m };
                    e.signature = secp().sign_ecdsa(&h, &key);
                    Sig::Ecdsa(p, e)
                }
                Sig::Leaf(x, l, mut t) => {
                    let h = if other { Message::from_digest(interp::sighash_tap(tx, ix, prev, Some(l.to_byte_array()), self.ty).unwrap()) } else { m };
                    t.signature = secp().sign_schnorr_no_aux_rand(&h, &secp256k1::Keypair::from_secret_key(secp(), &key));
                    Sig::Leaf(x, l, t)
                }
                Sig::Path(_) => unreachable!(),
            }
        };
        match self.sigs[n] {
            Sg::No => None,
            Sg::Valid => make_sig(k, slot, tx, ix, prev, self.ty),
            Sg::Type(t) => make_sig(k, slot, tx, ix, prev, t),
            Sg::OtherMsg => Some(flip(make_sig(k, slot, tx, ix, prev, self.ty)?, false)),
            Sg::OtherKey => Some(flip(make_sig(k, slot, tx, ix, prev, self.ty)?, true)),
            Sg::Elsewhere => {
                let mut tx = tx.clone();
                tx.input[ix].previous_output.vout ^= 1;
                make_sig(k, slot, &tx, ix, prev, self.ty)
            }
            Sg::WrongByte => {
                let other = if self.ty == 1 { 2 } else { 1 };
                let t = self.ty;
                Some(match make_sig(k, slot, tx, ix, prev, other)? {
                    Sig::Ecdsa(p, mut e) => {
                        e.sighash_type = EcdsaSighashType::from_standard(t as u32).ok()?;
                        Sig::Ecdsa(p, e)
                    }
                    Sig::Path(mut e) => {
                        e.sighash_type = TapSighashType::from_consensus_u8(t).ok()?;
                        Sig::Path(e)
                    }
                    Sig::Leaf(x, l, mut e) => {
                        e.sighash_type = TapSighashType::from_consensus_u8(t).ok()?;
                        Sig::Leaf(x, l, e)
                    }
                })
            }
        }
    }
    fn put<I: InMap>(&self, i: &mut I, ix: usize, sp: &Spend, tx: &Transaction) {
        let k = self.kind;
        describe(i, k);
        sp.fund(i, ix, self.form);
        let wrong = ScriptBuf::from_bytes(vec![0x51]);
        fn put(slot: &mut Option<ScriptBuf>, c: Sc, wrong: &ScriptBuf) {
            match c {
                Sc::Right => {}
                Sc::Missing => *slot = None,
                Sc::Wrong | Sc::Extra => *slot = Some(wrong.clone()),
            }
        }
        put(i.redeem(), self.redeem, &wrong);
        put(i.wscript(), self.wscript, &wrong);
        match self.tap {
            Tp::Full => {}
            Tp::NoOrigins => i.tap_orig().clear(),
            Tp::NoScripts => i.tap_scripts().clear(),
            Tp::OneScript(n) => {
                let l = &k.tap.as_ref().unwrap().leaves[n];
                i.tap_scripts().retain(|_, (s, _)| *s == l.script);
            }
            Tp::SwapControl => {
                let all: Vec<_> = std::mem::take(i.tap_scripts()).into_iter().collect();
                let n = all.len();
                for (m, (c, _)) in all.iter().enumerate() {
                    i.tap_scripts().insert(c.clone(), all[(m + 1) % n].1.clone());
                }
            }
            Tp::WrongInternal => *i.tap_int() = Some(kx(10)),
            Tp::NoInternal => {
                *i.tap_int() = None;
                *i.tap_root() = None;
            }
            Tp::Version => i.tap_scripts().values_mut().for_each(|v| v.1 = taproot::LeafVersion::from_consensus(0xc2).unwrap()),
        }
        if !self.origins {
            i.derivs().clear();
        }
        i.set_type(self.decl);
        if let Some(listed) = self.guests {
            for g in (0..16).filter(|g| k.keys.iter().all(|key| key.i != *g)) {
                match &k.tap {
                    None => {
                        add_sig(i, make_sig(k, Slot::Ecdsa(Key { i: g, unc: false }), tx, ix, &sp.prev, self.ty).unwrap());
                        if listed {
                            i.derivs().insert(kpk(g), ksrc(g));
                        }
                    }
                    Some(t) => {
                        for l in t.leaves.iter().filter(|_| t.internal.i != g) {
                            add_sig(i, make_sig(k, Slot::Leaf(g, l.hash), tx, ix, &sp.prev, self.ty).unwrap());
                            if listed {
                                i.tap_orig().entry(kx(g)).or_insert((vec![], ksrc(g))).0.push(l.hash);
                            }
                        }
                    }
                }
            }
        }
        for n in 0..k.slots.len() {
            if let Some(s) = self.sig(n, tx, ix, &sp.prev) {
                add_sig(i, s);
            }
        }
        for (n, (hk, p)) in k.hashes.iter().enumerate() {
            let right = preimage(*p);
            if self.pres[n] == Pre::Right {
                i.put_pre(*hk, right.to_vec(), &right);
            }
        }
    }
    /// Preimages that do not match: these do not survive the wire form.
    fn put_bad<I: InMap>(&self, i: &mut I) {
        for (n, (hk, p)) in self.kind.hashes.iter().enumerate() {
            let right = preimage(*p);
            match self.pres[n] {
                Pre::No | Pre::Right => {}
                Pre::Wrong => i.put_pre(*hk, preimage(9).to_vec(), &right),
                Pre::Long => i.put_pre(*hk, [&right[..], &[0]].concat(), &right),
                Pre::Short => i.put_pre(*hk, right[..31].to_vec(), &right),
            }
        }
    }
    /// Whether this input can be finalised; `None` where either answer is fine.
    fn can(&self, tx: &Transaction, ix: usize, prev: &[TxOut], v2: bool) -> Option<bool> {
        let k = self.kind;
        if self.form == Form::None {
            return Some(false);
        }
        let valid = |n: usize| match self.sigs[n] {
            Sg::Valid | Sg::Type(_) => self.sig(n, tx, ix, prev).is_some(),
            _ => false,
        };
        let at = |s: Slot| k.slots.iter().position(|x| *x == s).unwrap();
        let scripts_missing = matches!(self.redeem, Sc::Missing | Sc::Wrong) && k.redeem.is_some()
            || matches!(self.wscript, Sc::Missing | Sc::Wrong) && k.wscript.is_some();
        let leafless = matches!(self.tap, Tp::NoScripts | Tp::Version);
        let env = Env {
            sig: &|s| valid(at(s)) && !(leafless && matches!(s, Slot::Leaf(..))),
            pre: &|h, n| self.pres[k.hashes.iter().position(|x| *x == (h, n)).unwrap()] == Pre::Right,
            lock: tx.lock_time.to_consensus_u32(),
            seq: tx.input[ix].sequence.0,
            ver: tx.version.0,
        };
        let sat = !scripts_missing && k.pol.sat(&env);
        // BIP-174: finalizers must refuse signatures of another type than the one the input asks for.
        let mismatch = !k.schnorr()
            && self.decl.map(|d| (0..k.slots.len()).any(|n| {
                let t = if let Sg::Type(t) = self.sigs[n] { t } else { self.ty };
                self.sigs[n] != Sg::No && t as u32 != d
            })).unwrap_or(false);
        if mismatch && v2 {
            return Some(false);
        }
        if !sat {
            return Some(false);
        }
        let asked = self.decl.unwrap_or(if k.schnorr() { 0 } else { 1 });
        let open = self.sigs.iter().any(|s| !matches!(s, Sg::No | Sg::Valid))
            || (self.ty as u32 != asked)
            || self.redeem != Sc::Right
            || self.wscript != Sc::Right
            || self.pres.iter().any(|p| !matches!(p, Pre::No | Pre::Right))
            || !(self.tap == Tp::Full || self.tap == Tp::NoScripts)
            || !self.origins
            || self.form != Form::Non && !k.segwit()
            || tx.version.0 < 0;
        if open { None } else { Some(true) }
    }
}

#[derive(Clone, Debug)]
struct Tx { n_out: usize, ver: i32, lock: u32, seqs: Vec<u32>, /** PSBTv2: the lock time is the fallback (0), required by input 0 (1), or one input supports both kinds (2). */ need: u8, /** PSBTv2: a final sequence is written out. */ full_seq: bool, /** Other fields. */ by: Vec<(usize, usize)> }
fn plain(n: usize) -> Tx { Tx { n_out: 2, ver: 2, lock: 0, seqs: vec![0xffff_ffff; n], need: 0, full_seq: false, by: vec![] } }
/// Satisfies every time lock of the kinds that use block heights.
fn ripe(n: usize) -> Tx { Tx { n_out: 2, ver: 2, lock: 100, seqs: vec![10; n], need: 0, full_seq: false, by: vec![] } }

/// A PSBT with unknown and proprietary pairs in every map.
pub fn plant<P: PsbtV>(p: P) -> Result<(P, WPsbt), String> {
    let (_, w) = judge(P::VER, &p.ser());
    let mut w = w.ok_or("harness error: PSBT is not well formed")?;
    for ix in 0..w.n_maps() {
        let m = w.map_mut(ix);
        for p in [kv(0x77, [ix as u8, 1], [9, ix as u8]), kv(0x78, [], []), kv(0xfc, [2, b'm', b'c', 5, ix as u8], [7; 3])] {
            if !m.iter().any(|q| (q.t, &q.kd) == (p.t, &p.kd)) {
                m.push(p);
            }
        }
    }
    let q = P::de(&w.bytes()).map_err(|e| format!("harness error: {}", e))?;
    Ok((q, w))
}
pub fn sorted(m: &WMap) -> WMap {
    let mut m = m.clone();
    m.sort();
    m
}
fn shows(m: &WMap) -> String { m.iter().map(crate::c_codec::show_kv).collect::<Vec<_>>().join(", ") }
/// Input types without a meaning to the library.
fn unknown(t: u8) -> bool { t == 9 || (0x19..=0x1c).contains(&t) || t >= 0x1f }
/// Checks a finalised input map: the fields `keep` stay, the final ones are there, nothing else is.
fn kept(before: &WMap, after: &WMap, keep: &[u8], fin: impl Fn(&WMap) -> Res) -> Res {
    let on = |m: &WMap| sorted(&m.iter().filter(|p| keep.contains(&p.t) || unknown(p.t)).cloned().collect());
    if on(before) != on(after) {
        return Err(format!("kept fields differ: {:?} instead of {:?}", shows(&on(after)), shows(&on(before))));
    }
    for p in after {
        if !keep.contains(&p.t) && !unknown(p.t) && ![7, 8, 0x1d, 0x1e].contains(&p.t) {
            return Err(format!("field {:#x} was not dropped", p.t));
        }
    }
    fin(after)
}
fn same_but_scripts(got: &Transaction, want: &Transaction) -> Res {
    let mut g = got.clone();
    for i in &mut g.input {
        i.script_sig = ScriptBuf::new();
        i.witness = Witness::new();
    }
    if g != *want { Err(format!("extracted transaction differs: {:?} instead of {:?}", g, want)) } else { Ok(()) }
}

fn v2_case(ctx: &Ctx, ins: &[Fin], t: &Tx) -> Res {
    let spks: Vec<_> = ins.iter().map(|i| i.kind.spk.clone()).collect();
    let sp = spend(&spks, t.n_out, t.ver, t.lock, &t.seqs);
    let mut p = sp.v2();
    if t.full_seq {
        for (i, s) in p.inputs.iter_mut().zip(&t.seqs) {
            i.sequence = Some(Sequence(*s));
        }
    }
    if t.need > 0 {
        p.global.fallback_lock_time = None;
        let last = p.inputs.len() - 1;
        match sp.tx.lock_time {
            absolute::LockTime::Blocks(h) => {
                p.inputs[0].min_height = Some(h);
                if t.need > 1 {
                    p.inputs[0].min_time = Some(absolute::Time::from_consensus(1_700_000_000).unwrap());
                }
            }
            absolute::LockTime::Seconds(s) => {
                p.inputs[0].min_time = Some(s);
                // Time is chosen if another input supports nothing else.
                if t.need > 1 && last > 0 {
                    p.inputs[last].min_time = Some(absolute::Time::MIN);
                    p.inputs[last].min_height = Some(absolute::Height::from_consensus(800_000).unwrap());
                }
            }
        }
    }
    for (ix, i) in ins.iter().enumerate() {
        i.put(&mut p.inputs[ix], ix, &sp, &sp.tx);
    }
    bystand(&mut p, &t.by);
    let (mut p, w) = plant(p)?;
    for (i, m) in ins.iter().zip(&mut p.inputs) {
        i.put_bad(m);
    }
    if tx_of(&w).as_ref() != Some(&sp.tx) {
        return Err("harness error: the PSBT describes another transaction".into());
    }
    let want = ins.iter().enumerate().try_fold(true, |a, (ix, i)| match i.can(&sp.tx, ix, &sp.prev, true) {
        Some(false) => Err(Some(false)),
        Some(true) => Ok(a),
        None => Ok(false),
    });
    // An input that can not be finalised decides; otherwise an open one leaves it open.
    let want = match want {
        Err(e) => e,
        Ok(true) => Some(true),
        Ok(false) => None,
    };
    ctx.step();
    let done = match v2::Finalizer::new(p.clone()) {
        Err(e) => {
            ctx.err_dbg(&e)?;
            ctx.err(&e)?;
            Err(format!("no finalizer: {}", e))
        }
        Ok(f) => {
            ctx.step();
            if f.id() != id_of(&w).unwrap() {
                return Err("the finalizer reports another id".into());
            }
            match f.finalize(secp()) {
                Ok(q) => Ok(q),
                Err(e) => {
                    ctx.err(&e)?;
                    Err(format!("{}", e))
                }
            }
        }
    };
    ctx.outcome(match (&done, want) {
        (Ok(_), Some(_)) => "finalised",
        (Err(_), Some(_)) => "refused",
        (Ok(_), None) => "finalised, left open",
        (Err(_), None) => "refused, left open",
    });
    let q = match (done, want) {
        (Err(e), Some(true)) => return Err(format!("not finalised although it can be: {}", e)),
        (Ok(_), Some(false)) => return Err("finalised although it can not be".into()),
        (Err(_), _) => {
            // What is not finalised can not be extracted.
            ctx.step();
            return match v2::Extractor::new(p) {
                Ok(_) => Err("extractor accepts a PSBT that is not finalised".into()),
                Err(e) => ctx.err(&e),
            };
        }
        (Ok(q), _) => q,
    };
    if !q.is_finalized() {
        return Err("not all inputs are finalised".into());
    }
    let (_, a) = judge(Ver::V2, &q.ser());
    let a = a.ok_or("finalised PSBT is not well formed")?;
    if sorted(&a.g) != sorted(&w.g) || a.o.iter().map(sorted).ne(w.o.iter().map(sorted)) || a.i.len() != w.i.len() {
        return Err("a global or output field changed".into());
    }
    for ix in 0..ins.len() {
        kept(&w.i[ix], &a.i[ix], &[0, 1, 0x0e, 0x0f, 0x10, 0x11, 0x12], |m| {
            if get(m, 7).is_none() || get(m, 8).is_none() { Err("a final field is missing".into()) } else { Ok(()) }
        })
        .map_err(|e| format!("input {}: {}", ix, e))?;
    }
    ctx.step();
    let x = v2::Extractor::new(q.clone()).map_err(|e| format!("finalised PSBT can not be extracted: {}", e))?;
    let tx = x.extract_tx_unchecked_fee_rate().map_err(|e| format!("extraction fails: {}", e))?;
    same_but_scripts(&tx, &sp.tx)?;
    for (ix, i) in tx.input.iter().enumerate() {
        let m = &a.i[ix];
        if get(m, 7) != Some(i.script_sig.as_bytes()) || get(m, 8) != Some(&consensus::serialize(&i.witness)[..]) {
            return Err(format!("input {}: extracted scripts are not the final ones", ix));
        }
    }
    interp::verify_all(&tx, &sp.prev).map_err(|e| format!("extracted transaction is not valid: {}", e))?;
    ctx.validated();
    ctx.state_h(&q);
    Ok(())
}

fn v0_case(ctx: &Ctx, ins: &[Fin], t: &Tx, every: bool) -> Res {
    let spks: Vec<_> = ins.iter().map(|i| i.kind.spk.clone()).collect();
    let sp = spend(&spks, t.n_out, t.ver, t.lock, &t.seqs);
    let mut p = sp.v0();
    for (ix, i) in ins.iter().enumerate() {
        i.put(&mut p.inputs[ix], ix, &sp, &sp.tx);
    }
    bystand(&mut p, &t.by);
    let (base, w) = plant(p)?;
    let mut p = base.clone();
    for (i, m) in ins.iter().zip(&mut p.inputs) {
        i.put_bad(m);
    }
    let known = ins.iter().all(|i| i.form != Form::None);
    sighashes(ctx, ins, &p, &sp, known)?;
    for mall in [true, false] {
        let want: Vec<Option<bool>> = ins
            .iter()
            .enumerate()
            .map(|(ix, i)| match i.can(&sp.tx, ix, &sp.prev, false) {
                // The other UTXOs are needed to check signatures.
                Some(true) if !known || !mall && !i.kind.strict => None,
                x => x,
            })
            .collect();
        let mut q = p.clone();
        ctx.step();
        let r = if mall { q.finalize_mall_mut(secp()) } else { q.finalize_mut(secp()) };
        // Wrong preimages can not be written: compare what stayed without them.
        let mut plain = q.clone();
        for ix in 0..ins.len() {
            if q.inputs[ix] == p.inputs[ix] {
                plain.inputs[ix] = base.inputs[ix].clone();
            }
        }
        let (_, a) = judge(Ver::V0, &plain.ser());
        let a = a.ok_or("finalised PSBT is not well formed")?;
        if sorted(&a.g) != sorted(&w.g) || a.o.iter().map(sorted).ne(w.o.iter().map(sorted)) || a.i.len() != w.i.len() {
            return Err("a global or output field changed".into());
        }
        let mut done = vec![];
        for ix in 0..ins.len() {
            let fin = get(&a.i[ix], 7).is_some() || get(&a.i[ix], 8).is_some();
            done.push(fin);
            ctx.outcome(match (fin, want[ix]) {
                (true, Some(_)) => "finalised",
                (false, Some(_)) => "refused",
                (true, None) => "finalised, left open",
                (false, None) => "refused, left open",
            });
            match (fin, want[ix]) {
                (true, Some(false)) => return Err(format!("input {} finalised (malleable {}) although it can not be", ix, mall)),
                (false, Some(true)) => return Err(format!("input {} not finalised (malleable {}) although it can be: {:?}", ix, mall, r)),
                (false, _) => {
                    if sorted(&a.i[ix]) != sorted(&w.i[ix]) {
                        return Err(format!("input {} was not finalised but changed", ix));
                    }
                }
                (true, _) => kept(&w.i[ix], &a.i[ix], &[0, 1], |m| match (get(m, 7), get(m, 8)) {
                    (Some([]), _) | (_, Some([0])) => Err("an empty final field".into()),
                    _ => Ok(()),
                })
                .map_err(|e| format!("input {}: {}", ix, e))?,
            }
        }
        let fails = done.iter().filter(|d| !**d).count();
        let errs = match &r {
            Ok(()) => 0,
            Err(v) => {
                for e in v {
                    ctx.err(e)?;
                }
                v.len()
            }
        };
        if errs != fails {
            return Err(format!("{} errors reported for {} inputs that were not finalised", errs, fails));
        }
        // Extraction.
        ctx.step();
        let x = q.extract(secp());
        match (&x, fails) {
            (Err(e), 0) => return Err(format!("finalised PSBT can not be extracted: {}", e)),
            (Ok(_), n) if n > 0 => return Err("a PSBT that is not finalised was extracted".into()),
            (Err(e), _) => ctx.err(e)?,
            (Ok(tx), _) => {
                same_but_scripts(tx, &sp.tx)?;
                if q.clone().extract_tx_unchecked_fee_rate() != *tx {
                    return Err("the two ways to extract differ".into());
                }
                interp::verify_all(tx, &sp.prev).map_err(|e| format!("extracted transaction is not valid (malleable {}): {}", mall, e))?;
                v0::miniscript::interpreter_check(&q, secp()).map_err(|e| format!("interpreter check fails: {}", e))?;
                ctx.validated();
            }
        }
        // Each finalised input is valid in the transaction, whatever happened to the others.
        if fails > 0 {
            let tx = q.clone().extract_tx_unchecked_fee_rate();
            for (ix, _) in done.iter().enumerate().filter(|(_, d)| **d) {
                interp::verify(&tx, ix, &sp.prev).map_err(|e| format!("finalised but not valid (malleable {}): {}", mall, e))?;
                ctx.validated();
            }
        }
        ctx.state_h(&q);
        if !every {
            continue;
        }
        // The other entry points do the same.
        ctx.steps(2);
        let o = if mall { p.clone().finalize_mall(secp()) } else { p.clone().finalize(secp()) };
        let same = match &o {
            Ok(o) => r.is_ok() && *o == q,
            Err((o, _)) => r.is_err() && *o == q,
        };
        if !same {
            return Err(format!("finalize and finalize_mut differ (malleable {})", mall));
        }
        for ix in 0..ins.len() + 1 {
            let mut m = p.clone();
            ctx.steps(2);
            let r = if mall { m.finalize_inp_mall_mut(secp(), ix) } else { m.finalize_inp_mut(secp(), ix) };
            let mut expect = p.clone();
            if ix < ins.len() {
                expect.inputs[ix] = q.inputs[ix].clone();
            }
            if r.is_ok() != (ix < ins.len() && done[ix]) || m != expect {
                return Err(format!("finalising input {} alone differs (malleable {}): {:?}", ix, mall, r));
            }
            let o = if mall { p.clone().finalize_inp_mall(secp(), ix) } else { p.clone().finalize_inp(secp(), ix) };
            let same = match &o {
                Ok(o) => r.is_ok() && *o == m,
                Err((o, _)) => r.is_err() && *o == m,
            };
            if !same {
                return Err(format!("finalize_inp and finalize_inp_mut differ for input {} (malleable {})", ix, mall));
            }
            if let Err(e) = &r {
                ctx.err(e)?;
            }
        }
        // The free functions stop at the first input that fails, and check sighash types first.
        ctx.step();
        let mut m = p.clone();
        #[allow(deprecated)]
        let r = if mall { v0::miniscript::finalize_mall(&mut m, secp()) } else { v0::miniscript::finalize(&mut m, secp()) };
        match r {
            Ok(()) if m != q || fails > 0 => return Err(format!("free function finalize differs (malleable {})", mall)),
            Ok(()) => {}
            Err(e) => {
                ctx.err(&e)?;
                let odd = ins.iter().any(|i| i.sigs.iter().any(|s| matches!(s, Sg::Type(_))) || i.ty as u32 != i.decl.unwrap_or(if i.kind.schnorr() { 0 } else { 1 }));
                if fails == 0 && !odd {
                    return Err(format!("free function finalize fails (malleable {}): {}", mall, e));
                }
                for ix in 0..ins.len() {
                    if m.inputs[ix] != p.inputs[ix] && m.inputs[ix] != q.inputs[ix] {
                        return Err(format!("free function finalize changes input {} (malleable {})", ix, mall));
                    }
                }
            }
        }
    }
    Ok(())
}

/// The miniscript sighash helper.
fn sighashes(ctx: &Ctx, ins: &[Fin], p: &v0::Psbt, sp: &Spend, known: bool) -> Res {
    use v0::miniscript::PsbtSighashMsg as M;
    let mut cache = SighashCache::new(&sp.tx);
    for (ix, i) in ins.iter().enumerate() {
        let leaves: Vec<_> = match &i.kind.tap {
            Some(t) => std::iter::once(None).chain(t.leaves.iter().map(|l| Some(l.hash))).collect(),
            None => vec![None],
        };
        for leaf in leaves {
            ctx.step();
            let r = p.sighash_msg(ix, &mut cache, leaf);
            let want = if !known || i.redeem != Sc::Right || i.wscript != Sc::Right || i.form == Form::Wit && !i.kind.segwit() {
                None
            } else if i.kind.schnorr() {
                let ty = i.decl.unwrap_or(0);
                if ty > 0x83 { Some(None) } else { Some(interp::sighash_tap(&sp.tx, ix, &sp.prev, leaf.map(|l| l.to_byte_array()), ty as u8)) }
            } else {
                let ty = i.decl.unwrap_or(1);
                Some([1, 2, 3, 0x81, 0x82, 0x83].contains(&ty).then(|| i.kind.ecdsa_hash(&sp.tx, ix, sp.prev[ix].value.to_sat(), ty)))
            };
            let got = match r {
                Ok(m) => {
                    let kind = match (&m, i.kind.ot) {
                        (M::TapSighash(_), Ot::Tr) => true,
                        (M::LegacySighash(_), Ot::Bare | Ot::Sh) => true,
                        (M::SegwitV0Sighash(_), o) => !matches!(o, Ot::Bare | Ot::Sh | Ot::Tr),
                        _ => false,
                    };
                    if !kind && want.is_some() {
                        return Err(format!("sighash helper gives the wrong kind of hash for input {}", ix));
                    }
                    Some(*m.to_secp_msg().as_ref())
                }
                Err(e) => {
                    ctx.err(&e)?;
                    None
                }
            };
            if want.map(|w| w != got).unwrap_or(false) {
                return Err(format!("sighash helper gives {:?} for input {} leaf {:?}, expected {:?}", got.map(|g| hex(&g)), ix, leaf, want.unwrap().map(|g| hex(&g))));
            }
            ctx.validated();
        }
    }
    if let Err(e) = p.sighash_msg(ins.len(), &mut cache, None) {
        ctx.err(&e)?;
    }
    Ok(())
}

fn go(ctx: &Ctx, v2: bool, ins: &[Fin], t: &Tx, every: bool) {
    ctx.case(
        || format!("{} {:?}", ins.iter().map(|i| i.show()).collect::<Vec<_>>().join(" + "), t),
        |ctx| if v2 { v2_case(ctx, ins, t) } else { v0_case(ctx, ins, t, every) },
    )
}

fn locks_of(k: &Kind) -> (bool, bool) {
    let (mut a, mut o) = (false, false);
    k.pol.visit(&mut |p| match p {
        Pol::After(_) => a = true,
        Pol::Older(_) => o = true,
        _ => {}
    });
    (a, o)
}

fn finalising(ctx: &Ctx, v2: bool) {
    let names: Vec<&str> = SIGN_KINDS.iter().chain(MORE_KINDS).copied().collect();
    let ks = kinds(&names);
    ctx.bound("kinds of output", ks.len());
    // 1. Every subset of signatures and preimages, over lock times, sequences and versions around the limits.
    let locks: &[u32] = if ctx.thorough {
        &[0, 1, 99, 100, 101, 499_999_999, 500_000_000, 500_000_099, 500_000_100, 500_000_101, 0xffff_ffff]
    } else {
        &[0, 99, 100, 101, 500_000_099, 500_000_100]
    };
    let seqs: &[u32] = if ctx.thorough {
        &[0xffff_ffff, 0xffff_fffe, 0, 1, 4, 5, 9, 10, 11, 0xffff, 0x1000a, 0x10009, 0x40_0009, 0x40_000a, 0x40_000b, 0x8000_000a, 0x8040_000a, 0x7fff_ffff]
    } else {
        &[0xffff_ffff, 0xffff_fffe, 0, 4, 5, 9, 10, 0x10009, 0x40_0009, 0x40_000a, 0x8000_000a]
    };
    let vers: &[i32] = if ctx.thorough { &[1, 2, 3, 0, -1, i32::MAX, i32::MIN] } else { &[0, 1, 2, 3] };
    for k in &ks {
        let (after, older) = locks_of(k);
        for lock in if after { locks } else { &[0, 100] } {
            for seq in if older { seqs } else if after { &[0xffff_ffff, 0xffff_fffe, 0][..] } else { &[0xffff_ffff, 0] } {
                for ver in if older { vers } else { &[2, 1] } {
                    for (need, full_seq) in if v2 && *lock != 0 { &[(0, false), (1, true), (1, false), (2, true), (2, false)][..] } else { &[(0, false)] } {
                        let t = Tx { n_out: 2, ver: *ver, lock: *lock, seqs: vec![*seq], need: *need, full_seq: *full_seq, by: vec![] };
                        for s in 0..1u32 << k.slots.len() {
                            for h in 0..1u32 << k.hashes.len() {
                                go(ctx, v2, &[Fin::subset(k, s, h)], &t, false);
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.bound("lock times", format!("{:?}", locks));
    ctx.bound("sequences", format!("{:x?}", seqs));
    // 2. Sighash types of signatures and input, with and without an output to match.
    let tys: &[u8] = &[0, 1, 2, 3, 0x81, 0x82, 0x83];
    let mixed = kind("wpkh(A)");
    for k in &ks {
        for ty in tys {
            if *ty == 0 && !k.schnorr() {
                continue;
            }
            let mut decls = vec![None, Some(*ty as u32), Some(if *ty == 1 { 2 } else { 1 })];
            if ctx.thorough {
                decls.extend([0, 1, 2, 3, 0x81, 0x82, 0x83, 4, 0xdead_beef].map(Some));
                decls.dedup();
            }
            for decl in decls {
                for n_out in [0, 1, 2] {
                    let f = Fin::typed(k, *ty, decl);
                    go(ctx, v2, &[f.clone()], &Tx { n_out, ..ripe(1) }, true);
                    let m = Fin::full(&mixed);
                    go(ctx, v2, &[m.clone(), f.clone()], &Tx { n_out, ..ripe(2) }, false);
                    go(ctx, v2, &[f, m], &Tx { n_out, ..ripe(2) }, false);
                }
            }
        }
    }
    // Signatures of several types in one input, of which the input asks for one.
    for k in ks.iter().filter(|k| !k.schnorr()) {
        for (ty, other) in [(1u8, 2u8), (1, 0x81), (3, 1), (0x83, 0x82)] {
            for decl in [None, Some(ty as u32), Some(other as u32)] {
                for have in 1..1u32 << k.slots.len() {
                    for odd in (1..1u32 << k.slots.len()).filter(|o| o & have == *o) {
                        let mut f = Fin { ty, decl, ..Fin::subset(k, have, !0) };
                        f.sigs.iter_mut().enumerate().for_each(|(i, s)| if odd >> i & 1 == 1 { *s = Sg::Type(other) });
                        go(ctx, v2, &[f], &ripe(1), false);
                    }
                }
            }
        }
    }
    ctx.bound("sighash types", format!("{:x?}, declared or not, matching or not, with 0 to 2 outputs", tys));
    // 3. One or two corruptions.
    for k in &ks {
        let mut variants: Vec<Fin> = vec![];
        let bads = [Sg::No, Sg::OtherMsg, Sg::OtherKey, Sg::Elsewhere, Sg::WrongByte, Sg::Type(0x81)];
        for base in 0..1u32 << k.slots.len() {
            for n in 0..k.slots.len() {
                if base >> n & 1 == 1 {
                    for b in bads {
                        let mut f = Fin::subset(k, base, !0);
                        f.sigs[n] = b;
                        variants.push(f.clone());
                        if ctx.thorough {
                            for m in n + 1..k.slots.len() {
                                if base >> m & 1 == 1 {
                                    for b in bads {
                                        let mut g = f.clone();
                                        g.sigs[m] = b;
                                        variants.push(g);
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        let full = Fin::full(k);
        for base in 0..1u32 << k.slots.len() {
            for listed in [true, false] {
                variants.push(Fin { guests: Some(listed), ..Fin::subset(k, base, !0) });
            }
        }
        for n in 0..k.hashes.len() {
            for p in [Pre::No, Pre::Wrong, Pre::Long, Pre::Short] {
                for base in 0..1u32 << k.slots.len() {
                    let mut f = Fin::subset(k, base, !0);
                    f.pres[n] = p;
                    variants.push(f);
                }
            }
        }
        for redeem in [Sc::Right, Sc::Missing, Sc::Wrong, Sc::Extra] {
            for wscript in [Sc::Right, Sc::Missing, Sc::Wrong, Sc::Extra] {
                for form in [Form::Wit, Form::Non, Form::Both, Form::None] {
                    for origins in [true, false] {
                        let fix = |c: Sc, there: bool| match (c, there) {
                            (Sc::Extra, true) | (Sc::Missing | Sc::Wrong, false) => None,
                            (c, _) => Some(c),
                        };
                        if let (Some(redeem), Some(wscript)) = (fix(redeem, k.redeem.is_some()), fix(wscript, k.wscript.is_some())) {
                            variants.push(Fin { redeem, wscript, form, origins, ..full.clone() });
                        }
                    }
                }
            }
        }
        if let Some(t) = &k.tap {
            let mut tps = vec![Tp::NoOrigins, Tp::NoScripts, Tp::SwapControl, Tp::WrongInternal, Tp::NoInternal, Tp::Version];
            tps.extend((0..t.leaves.len()).map(Tp::OneScript));
            for tap in tps {
                for base in 0..1u32 << k.slots.len() {
                    variants.push(Fin { tap, ..Fin::subset(k, base, !0) });
                }
            }
        }
        for f in &variants {
            go(ctx, v2, &[f.clone()], &ripe(1), true);
        }
    }
    // 4. Pairs and triples of inputs: complete, incomplete, wrongly signed, without UTXO.
    let states = |k: &'static Kind| -> Vec<Fin<'static>> {
        let mut bad = Fin::full(k);
        bad.sigs[0] = Sg::Elsewhere;
        vec![Fin::full(k), Fin::none(k), bad, Fin { form: Form::None, ..Fin::full(k) }, Fin { form: Form::Both, ..Fin::full(k) }]
    };
    let ks2: &'static Vec<Kind> = Box::leak(Box::new(ks.clone()));
    let list: Vec<&'static Kind> = if ctx.thorough { ks2.iter().collect() } else { ks2.iter().step_by(2).collect() };
    ctx.bound("pairs of inputs", format!("{} kinds x {} kinds x 5 x 5 states", list.len(), list.len()));
    for a in &list {
        for b in &list {
            let (x, y) = (states(a), states(b));
            for (m, f) in x.iter().enumerate() {
                for (n, g) in y.iter().enumerate() {
                    if ctx.thorough || m == 0 || n == 0 {
                        go(ctx, v2, &[f.clone(), g.clone()], &ripe(2), true);
                    }
                }
            }
        }
    }
    let trip: Vec<&'static Kind> = ["pkh(A)", "sh(wpkh(A))", "wsh(and_v(v:pk(A),after(100)))", "tr(A,{pk(B),pk(C)})", "sh(multi(2,A,B,C))"]
        .iter()
        .map(|n| ks2.iter().find(|k| k.name == *n).unwrap())
        .collect();
    let n = if ctx.thorough { 5 } else { 3 };
    for a in &trip[..n] {
        for b in &trip[..n] {
            for c in &trip[..n] {
                for f in states(a) {
                    for g in states(b) {
                        for h in states(c) {
                            go(ctx, v2, &[f.clone(), g.clone(), h.clone()], &ripe(3), false);
                        }
                    }
                }
            }
        }
    }
    // Time locks of each input count on their own.
    for names in [["wsh(and_v(v:pk(A),older(10)))", "wsh(and_v(v:pk(A),after(100)))"], ["wsh(and_v(v:pk(A),older(4194314)))", "wsh(and_v(v:pk(A),older(10)))"]] {
        let k: Vec<_> = names.iter().map(|n| ks2.iter().find(|k| k.name == *n).unwrap()).collect();
        for s0 in seqs {
            for s1 in seqs {
                for lock in [0, 99, 100, 500_000_100] {
                    for need in 0..if v2 && lock > 0 { 3 } else { 1 } {
                        for (x, y) in [(0, 1), (1, 0)] {
                            let t = Tx { n_out: 1, ver: 2, lock, seqs: vec![*s0, *s1], need, full_seq: false, by: vec![] };
                            go(ctx, v2, &[Fin::full(k[x]), Fin::full(k[y])], &t, false);
                        }
                    }
                }
            }
        }
    }
    // 5. Other fields.
    let filler = kind("wpkh(L)");
    for (n, k) in ks.iter().enumerate() {
        let tr = k.schnorr();
        fn meant<P>(a: &Atom<P>, tr: bool) -> bool {
            match a.k {
                K::G => matches!(a.kv.t, 2 | 3),
                K::I => matches!(a.kv.t, 0..=5 | 7 | 8 | 0x0e..=0x14) || tr && matches!(a.kv.t, 0x15 | 0x17 | 0x18),
                K::O => matches!(a.kv.t, 3 | 4),
            }
        }
        let rare = ctx.thorough && n % 8 == 0;
        let by = if v2 {
            bystanders::<v2::Psbt>(rare, 2, 2, |a, ix| meant(a, tr && ix == 0))
        } else {
            bystanders::<v0::Psbt>(rare, 2, 2, |a, ix| a.k != K::O && meant(a, tr && ix == 0))
        };
        for (m, (name, b)) in by.into_iter().enumerate() {
            if !ctx.thorough && (n + m) % 3 != 0 {
                continue;
            }
            for f in [Fin::full(k), Fin::none(k)] {
                let t = Tx { by: vec![b], ..ripe(2) };
                ctx.case(
                    || format!("{} beside {} {:?}", name, f.show(), t),
                    |ctx| {
                        let ins = [f.clone(), Fin::full(&filler)];
                        if v2 { v2_case(ctx, &ins, &t) } else { v0_case(ctx, &ins, &t, false) }
                    },
                );
            }
        }
    }
    ctx.bound("other fields", "every other field value on the input, another input, outputs and the global map");
    // 6. Long transactions.
    let wide: &[usize] = if ctx.thorough { &[0, 127, 128, 253, 254, 255, 256, 257, 299] } else { &[0, 253, 255, 256] };
    for (n, k) in ks.iter().enumerate() {
        for (m, at) in wide.iter().enumerate() {
            if !ctx.thorough && (n + m) % 8 != 0 {
                continue;
            }
            for f in [Fin::full(k), Fin::none(k)] {
                ctx.case(
                    || format!("300 inputs, {} at {}", f.show(), at),
                    |ctx| {
                        let mut ins = vec![Fin::full(&filler); 300];
                        ins[*at] = f.clone();
                        let t = Tx { n_out: 256 + (n + m) % 3, ..ripe(300) };
                        if v2 { v2_case(ctx, &ins, &t) } else { v0_case(ctx, &ins, &t, false) }
                    },
                );
            }
        }
    }
    ctx.bound("long transactions", format!("300 inputs; looked at: {:?}", wide));
    // 7. Every script of a grammar.
    for form in ["wsh(*)", "sh(wsh(*))", "sh(*)", "*", "tr(L,*)", "tr(L,{pk(K),*})"] {
        let long = ctx.thorough && matches!(form, "wsh(*)" | "tr(L,*)");
        let ks = grown(form, if long { 3 } else { 2 }, ctx.thorough && !long);
        ctx.bound(&format!("scripts in {}", form), ks.len());
        for k in &ks {
            let fixed: u32 = k.slots.iter().enumerate().filter(|(_, s)| !matches!(s, Slot::Ecdsa(k) if k.i < 9) && !matches!(s, Slot::Leaf(i, _) if *i < 9)).map(|(n, _)| 1 << n).sum();
            for t in [ripe(1), plain(1), Tx { lock: 100, seqs: vec![0], ..plain(1) }, Tx { seqs: vec![10], ..plain(1) }] {
                let (after, older) = locks_of(k);
                if t.lock != 100 && !after && t.seqs[0] == 10 || t.seqs[0] == 0 && !older || !after && !older && t.lock == 0 {
                    continue;
                }
                for s in (0..1u32 << k.slots.len()).filter(|s| s & fixed == 0) {
                    for h in 0..1u32 << k.hashes.len() {
                        go(ctx, v2, &[Fin::subset(k, s, h)], &t, false);
                    }
                }
            }
        }
    }
    // 8. Scripts of no descriptor.
    crate::c_odd::odd_scripts(ctx, v2);
    // 9. Nothing to finalise.
    for n_out in [0, 1] {
        go(ctx, v2, &[], &Tx { n_out, ..plain(0) }, true);
    }
}

pub fn final_v2(ctx: &Ctx) { finalising(ctx, true) }
pub fn final_v0(ctx: &Ctx) { finalising(ctx, false) }
