//! W01 and W02: however the parties schedule their work, the session ends in the same transaction.
//!
//! A PSBT in a session is determined by the set of facts it has been told: that is the model. Its states are sets
//! of facts, its actions adding a fact, signing, updating from a descriptor and combining. Every reachable state is
//! expanded, every action is replayed on the implementation from the PSBT that holds exactly those facts, and the
//! result must be the PSBT that holds exactly the facts of the model's next state. By induction every schedule of
//! those actions between any number of parties gives the model's PSBT. Finalising adds final states, which are
//! combined with every other state.
use crate::c_combine::CombineV;
use crate::interp;
use crate::run::*;
use crate::spend::*;
use crate::util::*;
use crate::wire::*;
use bitcoin::hashes::Hash;
use bitcoin::secp256k1::Message;
use bitcoin::*;
use miniscript::{DefiniteDescriptorKey, Descriptor};
use psbt_v2::v0::miniscript::PsbtExt;
use psbt_v2::{v0, v2};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::str::FromStr;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Fact {
    Wit(usize),
    Non(usize),
    /// Redeem and witness scripts; internal key, root and leaves.
    Scr(usize),
    /// Origin of the n-th key of the kind.
    Orig(usize, usize),
    Pre(usize, usize),
    /// Signature for the n-th slot.
    Sgn(usize, usize),
    /// Things no role has to look at.
    Other,
}
use Fact::*;

/// How a session is laid out.
struct Lay { kinds: &'static [&'static str], types: &'static [Option<u32>], both: bool, other: bool, seq: u32, lock: u32, need: bool }

struct Session<P> {
    name: String,
    kinds: Vec<Kind>,
    descs: Vec<Descriptor<DefiniteDescriptorKey>>,
    types: Vec<Option<u32>>,
    sp: Spend,
    need: bool,
    facts: Vec<Fact>,
    /// Every reachable state and its distance from the start.
    reach: Vec<(u32, u32)>,
    psbt: HashMap<u32, P>,
}

trait Flow: CombineV + FromStr + std::fmt::Display {
    type In: InMap;
    const V2: bool;
    fn start(sp: &Spend, need: bool) -> Self;
    fn map(&mut self, ix: usize) -> &mut Self::In;
    fn other(&mut self);
    fn flags(&mut self, of: &Self);
    fn sign_with(self, ctx: &Ctx, keys: u32) -> Result<Option<Self>, String>;
    fn update(self, ix: usize, d: &Descriptor<DefiniteDescriptorKey>) -> Option<Result<Self, String>>;
    fn fin(self, ctx: &Ctx, mall: bool) -> Result<Self, String>;
    fn done(&self) -> Vec<bool>;
    fn end(&self) -> Result<Transaction, String>;
    fn tag(&self) -> Txid;
}

fn pair_of(n: u8) -> (Vec<u8>, Vec<u8>) { (vec![n, 1], vec![n; 3]) }

impl Flow for v2::Psbt {
    type In = v2::Input;
    const V2: bool = true;
    fn start(sp: &Spend, need: bool) -> Self {
        let mut p = sp.v2();
        if need {
            p.global.fallback_lock_time = None;
            match sp.tx.lock_time {
                absolute::LockTime::Blocks(h) => p.inputs[0].min_height = Some(h),
                absolute::LockTime::Seconds(s) => p.inputs[0].min_time = Some(s),
            }
        }
        p
    }
    fn map(&mut self, ix: usize) -> &mut v2::Input { &mut self.inputs[ix] }
    fn other(&mut self) {
        use psbt_v2::raw::{Key, ProprietaryKey};
        let (k, v) = pair_of(4);
        let key = Key { type_value: 0x70, key: k.clone() };
        let own = ProprietaryKey { prefix: b"flow".to_vec(), subtype: 1u8, key: k };
        self.global.unknowns.insert(key.clone(), v.clone());
        self.global.xpubs.insert(xpub(3), ks([1, 2, 3, 4], &[5, 6]));
        self.inputs[0].unknowns.insert(key.clone(), v.clone());
        self.inputs[0].proprietaries.insert(own.clone(), v.clone());
        let o = &mut self.outputs[0];
        o.unknowns.insert(key, v.clone());
        o.proprietaries.insert(own, v);
        o.bip32_derivations.insert(kpk(8), ksrc(8));
    }
    fn flags(&mut self, of: &Self) { self.global.tx_modifiable_flags = of.global.tx_modifiable_flags; }
    fn sign_with(self, ctx: &Ctx, keys: u32) -> Result<Option<Self>, String> {
        match v2::Signer::new(self).map_err(|e| format!("no signer: {}", e))?.sign(&Prov::new(keys, Ans::Both), secp()) {
            Ok((p, _)) => Ok(Some(p)),
            Err((_, e)) => {
                for x in e.values() {
                    ctx.err(x)?;
                }
                Ok(None)
            }
        }
    }
    fn update(self, _: usize, _: &Descriptor<DefiniteDescriptorKey>) -> Option<Result<Self, String>> { None }
    fn fin(self, ctx: &Ctx, _: bool) -> Result<Self, String> {
        let before = self.clone();
        match v2::Finalizer::new(self) {
            Err(e) => {
                ctx.err(&e)?;
                Ok(before)
            }
            Ok(f) => match f.finalize(secp()) {
                Ok(p) => Ok(p),
                Err(e) => {
                    ctx.err(&e)?;
                    Ok(before)
                }
            },
        }
    }
    fn done(&self) -> Vec<bool> { self.inputs.iter().map(|i| i.final_script_sig.is_some() && i.final_script_witness.is_some()).collect() }
    fn end(&self) -> Result<Transaction, String> {
        v2::Extractor::new(self.clone()).map_err(|e| e.to_string())?.extract_tx_unchecked_fee_rate().map_err(|e| e.to_string())
    }
    fn tag(&self) -> Txid { v2::Updater::new(self.clone()).expect("lock time").id() }
}
impl Flow for v0::Psbt {
    type In = v0::bitcoin::Input;
    const V2: bool = false;
    fn start(sp: &Spend, _: bool) -> Self { sp.v0() }
    fn map(&mut self, ix: usize) -> &mut v0::bitcoin::Input { &mut self.inputs[ix] }
    fn other(&mut self) {
        use psbt_v2::v0::bitcoin::raw::{Key, ProprietaryKey};
        let (k, v) = pair_of(4);
        let key = Key { type_value: 0x70, key: k.clone() };
        let own = ProprietaryKey { prefix: b"flow".to_vec(), subtype: 1u8, key: k };
        self.unknown.insert(key.clone(), v.clone());
        self.xpub.insert(xpub(3), ks([1, 2, 3, 4], &[5, 6]));
        self.inputs[0].unknown.insert(key.clone(), v.clone());
        self.inputs[0].proprietary.insert(own.clone(), v.clone());
        let o = &mut self.outputs[0];
        o.unknown.insert(key, v.clone());
        o.proprietary.insert(own, v);
        o.bip32_derivation.insert(kpk(8), ksrc(8));
    }
    fn flags(&mut self, _: &Self) {}
    fn sign_with(mut self, ctx: &Ctx, keys: u32) -> Result<Option<Self>, String> {
        if let Err((_, e)) = self.sign(&Prov::new(keys, Ans::Both), secp()) {
            for x in e.values() {
                ctx.err(x)?;
            }
        }
        Ok(Some(self))
    }
    fn update(mut self, ix: usize, d: &Descriptor<DefiniteDescriptorKey>) -> Option<Result<Self, String>> {
        Some(self.update_input_with_descriptor(ix, d).map_err(|e| e.to_string()).map(|()| self))
    }
    fn fin(mut self, ctx: &Ctx, mall: bool) -> Result<Self, String> {
        let r = if mall { self.finalize_mall_mut(secp()) } else { self.finalize_mut(secp()) };
        for e in r.err().into_iter().flatten() {
            ctx.err(&e)?;
        }
        Ok(self)
    }
    fn done(&self) -> Vec<bool> { self.inputs.iter().map(|i| i.final_script_sig.is_some() || i.final_script_witness.is_some()).collect() }
    fn end(&self) -> Result<Transaction, String> { self.extract(secp()).map_err(|e| e.to_string()) }
    fn tag(&self) -> Txid { self.unsigned_tx.compute_txid() }
}

impl<P: Flow> Session<P> {
    fn new(l: &Lay) -> Self {
        let kinds = kinds(l.kinds);
        let spks: Vec<_> = kinds.iter().map(|k| k.spk.clone()).collect();
        let sp = spend(&spks, 3, 2, l.lock, &vec![l.seq; spks.len()]);
        let mut facts = vec![];
        for (ix, k) in kinds.iter().enumerate() {
            if k.segwit() {
                facts.push(Wit(ix));
            }
            if !k.segwit() || l.both {
                facts.push(Non(ix));
            }
            if k.redeem.is_some() || k.wscript.is_some() || k.tap.is_some() {
                facts.push(Scr(ix));
            }
            facts.extend((0..k.keys.len()).map(|n| Orig(ix, n)));
            facts.extend((0..k.hashes.len()).map(|n| Pre(ix, n)));
            facts.extend((0..k.slots.len()).map(|n| Sgn(ix, n)));
        }
        if l.other {
            facts.push(Other);
        }
        assert!(facts.len() <= 20);
        let descs = kinds
            .iter()
            .map(|k| {
                let mut t = k.text.clone();
                for key in &k.keys {
                    let pk = key.pk().to_string();
                    t = t.replace(&pk, &format!("[{}/{}]{}", kfp(), key.i, pk));
                }
                Descriptor::from_str(&t).expect("descriptor with origins")
            })
            .collect();
        let name = format!("{}{}{}{}", l.kinds.join(" + "), if l.both { " both" } else { "" }, l.types.iter().map(|t| t.map(|t| format!(" {:#x}", t)).unwrap_or_default()).collect::<String>(), if l.need { " needed" } else { "" });
        let mut types = l.types.to_vec();
        types.resize(kinds.len(), None);
        let mut s = Session { name, kinds, descs, types, sp, need: l.need, facts, reach: vec![], psbt: HashMap::new() };
        s.explore();
        for (m, _) in s.reach.clone() {
            let p = s.build(m);
            s.psbt.insert(m, p);
        }
        s
    }
    fn has(&self, m: u32, f: Fact) -> bool { self.facts.iter().position(|x| *x == f).map(|n| m >> n & 1 == 1).unwrap_or(false) }
    fn with(&self, m: u32, f: Fact) -> u32 { m | 1 << self.facts.iter().position(|x| *x == f).expect("fact") }
    fn known(&self, m: u32, ix: usize) -> bool { self.has(m, Wit(ix)) || self.has(m, Non(ix)) }
    fn all_known(&self, m: u32) -> bool { (0..self.kinds.len()).all(|ix| self.known(m, ix)) }
    fn scripts(&self, m: u32, ix: usize) -> bool { self.has(m, Scr(ix)) || !self.facts.contains(&Scr(ix)) }

    // ---- the model

    /// Facts that someone may come by in this state.
    fn learn(&self, m: u32) -> Vec<Fact> {
        let ext = |ix: usize| P::V2 && self.kinds[ix].schnorr();
        self.facts
            .iter()
            .copied()
            .filter(|f| !self.has(m, *f))
            .filter(|f| match f {
                Orig(ix, _) => !self.kinds[*ix].schnorr() || self.scripts(m, *ix),
                // PSBTv2 leaves taproot inputs to others.
                Sgn(ix, n) => ext(*ix) && (self.all_known(m) || self.ty(*ix) & 0x80 != 0 && self.known(m, *ix)) && self.scripts(m, *ix) && self.kinds[*ix].keys.iter().enumerate().any(|(j, k)| {
                    let of = match self.kinds[*ix].slots[*n] {
                        Slot::Leaf(i, _) => i,
                        _ => self.kinds[*ix].tap.as_ref().unwrap().internal.i,
                    };
                    k.i == of && self.has(m, Orig(*ix, j))
                }),
                _ => true,
            })
            .collect()
    }
    /// Who can sign: everybody alone, and all together.
    fn signers(&self) -> Vec<u32> {
        let mut v: Vec<u32> = self.kinds.iter().flat_map(|k| &k.keys).map(|k| 1 << k.i).collect();
        v.sort();
        v.dedup();
        if v.len() > 1 {
            v.push(v.iter().sum());
        }
        v
    }
    /// The state after signing; none where signing must fail.
    fn signed(&self, m: u32, keys: u32) -> Option<u32> {
        let mut r = m;
        for (ix, k) in self.kinds.iter().enumerate() {
            if !self.known(m, ix) {
                continue;
            }
            let mine = |i: u32| keys >> i & 1 == 1 && k.keys.iter().enumerate().any(|(n, key)| key.i == i && self.has(m, Orig(ix, n)));
            if k.schnorr() {
                // Unless it signs for this input only, a taproot signature covers every output spent.
                if P::V2 || !(self.all_known(m) || self.ty(ix) & 0x80 != 0) {
                    continue;
                }
                for (n, s) in k.slots.iter().enumerate() {
                    let i = match s {
                        Slot::Leaf(i, _) => *i,
                        _ => k.tap.as_ref().unwrap().internal.i,
                    };
                    if mine(i) {
                        r = self.with(r, Sgn(ix, n));
                    }
                }
            } else if self.scripts(m, ix) {
                for (n, s) in k.slots.iter().enumerate() {
                    let Slot::Ecdsa(key) = s else { unreachable!() };
                    if mine(key.i) {
                        r = self.with(r, Sgn(ix, n));
                    }
                }
            } else if P::V2 && k.keys.iter().any(|key| mine(key.i)) {
                return None;
            }
        }
        Some(r)
    }
    fn updated(&self, m: u32, ix: usize) -> Option<u32> {
        if P::V2 || !self.known(m, ix) {
            return None;
        }
        let mut r = m;
        for f in &self.facts {
            if matches!(f, Scr(i) | Orig(i, _) if *i == ix) {
                r = self.with(r, *f);
            }
        }
        Some(r)
    }
    fn next(&self, m: u32) -> Vec<u32> {
        let mut v: Vec<u32> = self.learn(m).into_iter().map(|f| self.with(m, f)).collect();
        v.extend(self.signers().into_iter().filter_map(|k| self.signed(m, k)));
        v.extend((0..self.kinds.len()).filter_map(|ix| self.updated(m, ix)));
        v
    }
    fn explore(&mut self) {
        let mut depth: BTreeMap<u32, u32> = [(0, 0)].into();
        let mut todo: VecDeque<u32> = [0].into();
        loop {
            while let Some(m) = todo.pop_front() {
                let d = depth[&m] + 1;
                for n in self.next(m) {
                    depth.entry(n).or_insert_with(|| {
                        todo.push_back(n);
                        d
                    });
                }
            }
            let all: Vec<u32> = depth.keys().copied().collect();
            for a in &all {
                for b in &all {
                    let d = depth[a].max(depth[b]) + 1;
                    depth.entry(a | b).or_insert_with(|| {
                        todo.push_back(a | b);
                        d
                    });
                }
            }
            if todo.is_empty() {
                break;
            }
        }
        self.reach = depth.into_iter().collect();
        self.reach.sort_by_key(|(m, d)| (*d, *m));
    }
    fn ty(&self, ix: usize) -> u8 { self.types[ix].unwrap_or(if self.kinds[ix].schnorr() { 0 } else { 1 }) as u8 }
    /// The PSBT that holds exactly these facts.
    fn build(&self, m: u32) -> P {
        let mut p = P::start(&self.sp, self.need);
        for (ix, k) in self.kinds.iter().enumerate() {
            let i = p.map(ix);
            i.set_type(self.types[ix]);
            if self.has(m, Wit(ix)) {
                self.sp.fund(i, ix, Form::Wit);
            }
            if self.has(m, Non(ix)) {
                self.sp.fund(i, ix, Form::Non);
            }
            let (ors, orx) = {
                // What an updater would write, from which this state takes its part.
                let mut full = P::start(&self.sp, self.need);
                let f = full.map(ix);
                describe(f, k);
                if self.has(m, Scr(ix)) {
                    *i.redeem() = f.redeem().clone();
                    *i.wscript() = f.wscript().clone();
                    *i.tap_int() = *f.tap_int();
                    *i.tap_root() = *f.tap_root();
                    *i.tap_scripts() = f.tap_scripts().clone();
                }
                (f.derivs().clone(), f.tap_orig().clone())
            };
            for (n, key) in k.keys.iter().enumerate() {
                if self.has(m, Orig(ix, n)) {
                    if let Some(s) = ors.get(&kpk(key.i)) {
                        i.derivs().insert(kpk(key.i), s.clone());
                    }
                    if let Some(s) = orx.get(&key.x()) {
                        i.tap_orig().insert(key.x(), s.clone());
                    }
                }
            }
            for (n, (h, x)) in k.hashes.iter().enumerate() {
                if self.has(m, Pre(ix, n)) {
                    i.put_pre(*h, preimage(*x).to_vec(), &preimage(*x));
                }
            }
            for (n, s) in k.slots.iter().enumerate() {
                if self.has(m, Sgn(ix, n)) {
                    add_sig(i, make_sig(k, *s, &self.sp.tx, ix, &self.sp.prev, self.ty(ix)).expect("signature"));
                }
            }
        }
        if self.has(m, Other) {
            p.other();
        }
        p
    }
    /// Whether each input can be finalised; none where either is fine.
    fn can(&self, m: u32) -> Vec<Option<bool>> {
        self.kinds
            .iter()
            .enumerate()
            .map(|(ix, k)| {
                let env = Env {
                    sig: &|s| self.has(m, Sgn(ix, k.slots.iter().position(|x| *x == s).unwrap())),
                    pre: &|h, x| self.has(m, Pre(ix, k.hashes.iter().position(|y| *y == (h, x)).unwrap())),
                    lock: self.sp.tx.lock_time.to_consensus_u32(),
                    seq: self.sp.tx.input[ix].sequence.0,
                    ver: self.sp.tx.version.0,
                };
                if !self.known(m, ix) || !self.scripts(m, ix) || !k.pol.sat(&env) || P::V2 && !self.all_known(m) {
                    return Some(false);
                }
                // Hashed keys in scripts are found by their origins.
                let hashed = k.name.matches("pkh(").count() > 0 && !k.name.starts_with("pkh(") && k.ot != Ot::ShWpkh && k.ot != Ot::Wpkh;
                let orig = (0..k.keys.len()).all(|n| self.has(m, Orig(ix, n)));
                if hashed && !orig || !self.all_known(m) { None } else { Some(true) }
            })
            .collect()
    }
    fn show(&self, m: u32) -> String {
        let v: Vec<String> = self.facts.iter().filter(|f| self.has(m, **f)).map(|f| format!("{:?}", f)).collect();
        v.join(" ")
    }

    // ---- the implementation

    /// Replaces valid signatures by those this harness makes.
    fn normal(&self, p: &mut P) {
        let (tx, prev) = (&self.sp.tx, &self.sp.prev);
        for (ix, k) in self.kinds.iter().enumerate() {
            let ty = self.ty(ix);
            for s in &k.slots {
                let Some(mine) = make_sig(k, *s, tx, ix, prev, ty) else { continue };
                let i = p.map(ix);
                match mine {
                    Sig::Ecdsa(key, e) => {
                        let h = k.ecdsa_hash(tx, ix, prev[ix].value.to_sat(), ty as u32);
                        if let Some(x) = i.psigs().get_mut(&key) {
                            if x.sighash_type == e.sighash_type && secp().verify_ecdsa(&Message::from_digest(h), &x.signature, &key.inner).is_ok() {
                                *x = e;
                            }
                        }
                    }
                    Sig::Path(t) => {
                        let h = interp::sighash_tap(tx, ix, prev, None, ty).expect("hash");
                        let out = XOnlyPublicKey::from_slice(&k.spk.as_bytes()[2..]).expect("key");
                        if let Some(x) = i.tap_sig() {
                            if x.sighash_type == t.sighash_type && secp().verify_schnorr(&x.signature, &Message::from_digest(h), &out).is_ok() {
                                *x = t;
                            }
                        }
                    }
                    Sig::Leaf(key, l, t) => {
                        let h = interp::sighash_tap(tx, ix, prev, Some(l.to_byte_array()), ty).expect("hash");
                        if let Some(x) = i.tap_sigs().get_mut(&(key, l)) {
                            if x.sighash_type == t.sighash_type && secp().verify_schnorr(&x.signature, &Message::from_digest(h), &key).is_ok() {
                                *x = t;
                            }
                        }
                    }
                }
            }
        }
    }
    fn same(&self, mut got: P, m: u32, what: &str) -> Res {
        self.normal(&mut got);
        let want = &self.psbt[&m];
        let mut w = want.clone();
        w.flags(&got);
        if got != w {
            return Err(format!("{} does not lead to [{}]: {} instead of {}", what, self.show(m), hex(&got.ser()), hex(&w.ser())));
        }
        Ok(())
    }
    fn mall(&self) -> bool { self.kinds.iter().any(|k| !k.strict) }

    /// Checks the transaction of a finished PSBT.
    fn valid(&self, ctx: &Ctx, p: &P, seen: &mut HashSet<u64>, what: &str) -> Res {
        let tx = p.end().map_err(|e| format!("{}: can not be extracted: {}", what, e))?;
        ctx.step();
        if !seen.insert(fnv(&consensus::serialize(&tx))) {
            return Ok(());
        }
        let mut plain = tx.clone();
        for i in &mut plain.input {
            i.script_sig = ScriptBuf::new();
            i.witness = Witness::new();
        }
        if plain != self.sp.tx {
            return Err(format!("{}: another transaction is extracted: {:?}", what, tx));
        }
        interp::verify_all(&tx, &self.sp.prev).map_err(|e| format!("{}: the extracted transaction is not valid: {}", what, e))?;
        ctx.validated();
        Ok(())
    }

    fn state(&self, ctx: &Ctx, m: u32, partners: &[u32], after: &[u32]) -> Res {
        let p = &self.psbt[&m];
        ctx.state_h(&(&self.name, m));
        // Handing it over changes nothing.
        let hop = P::de(&p.ser()).map_err(|e| format!("not readable: {}", e))?;
        if hop != *p {
            return Err("changed by writing and reading it".into());
        }
        if P::from_str(&p.to_string()).ok().as_ref() != Some(p) {
            return Err("changed by writing and reading its text".into());
        }
        if p.tag() != self.psbt[&0].tag() {
            return Err("the id changed on the way".into());
        }
        ctx.steps(3);
        // Actions.
        for k in self.signers() {
            let want = self.signed(m, k);
            ctx.step();
            let name = format!("signing with {:#x}", k);
            match (p.clone().sign_with(ctx, k)?, want) {
                (Some(q), Some(n)) => self.same(q, n, &name)?,
                (None, None) => {}
                (None, Some(_)) => return Err(format!("{} fails", name)),
                (Some(_), None) => return Err(format!("{} succeeds although the scripts are missing", name)),
            }
            ctx.validated();
        }
        for ix in 0..self.kinds.len() {
            if let (Some(n), Some(r)) = (self.updated(m, ix), p.clone().update(ix, &self.descs[ix])) {
                ctx.step();
                self.same(r.map_err(|e| format!("descriptor update of input {} fails: {}", ix, e))?, n, "the descriptor update")?;
                ctx.validated();
            }
        }
        for f in self.learn(m) {
            // Setting a public field: the state built from the larger set of facts.
            if !self.psbt.contains_key(&self.with(m, f)) {
                return Err("harness error: state space is not closed".into());
            }
        }
        for b in partners {
            let q = P::combine2(p.clone(), self.psbt[b].clone()).map_err(|e| format!("combining with [{}] fails: {}", self.show(*b), e))?;
            ctx.step();
            if q != self.psbt[&(m | b)] {
                return Err(format!("combining with [{}] does not give the union: {}", self.show(*b), hex(&q.ser())));
            }
        }
        // Finalising.
        let mut seen = HashSet::new();
        let f = p.clone().fin(ctx, self.mall())?;
        ctx.step();
        let can = self.can(m);
        let done = f.done();
        if P::V2 {
            let all = if can.contains(&Some(false)) { Some(false) } else if can.contains(&None) { None } else { Some(true) };
            let got = done.iter().all(|d| *d);
            if all.map(|a| a != got).unwrap_or(false) || !got && f != *p {
                return Err(format!("finalised: {:?}, expected {:?}", done, can));
            }
        } else if can.iter().zip(&done).any(|(c, d)| c.map(|c| c != *d).unwrap_or(false)) {
            return Err(format!("finalised: {:?}, expected {:?}", done, can));
        }
        if !done.contains(&true) {
            ctx.outcome("nothing final");
            return Ok(());
        }
        let all = done.iter().all(|d| *d);
        ctx.outcome(if all { "final" } else { "partly final" });
        if all {
            self.valid(ctx, &f, &mut seen, "finalised")?;
        } else if f.end().is_ok() {
            return Err("extracted although an input is not final".into());
        }
        if P::de(&f.ser()).ok().as_ref() != Some(&f) {
            return Err("the final PSBT is changed by writing and reading it".into());
        }
        ctx.validated();
        // What others still send around does no harm.
        let keys = *self.signers().last().unwrap();
        for b in after {
            let o = &self.psbt[b];
            let what = format!("final, combined with [{}]", self.show(*b));
            let c = P::combine2(f.clone(), o.clone()).map_err(|e| format!("{}: {}", what, e))?;
            let d = P::combine2(o.clone(), f.clone()).map_err(|e| format!("{}: {}", what, e))?;
            ctx.steps(2);
            if c != d {
                return Err(format!("{}: the order matters", what));
            }
            if c.done() != done {
                return Err(format!("{}: final inputs {:?} instead of {:?}", what, c.done(), done));
            }
            if all {
                self.valid(ctx, &c, &mut seen, &what)?;
            }
            // They may go on, too: sign what they can and finalise again.
            let u = m | b;
            let mut later = vec![(c.clone(), u)];
            if let Some(s) = c.sign_with(ctx, keys)? {
                // Signing needs the facts of the inputs that are not final; the others are as they were.
                later.push((s, u));
            }
            for (n, (c, u)) in later.into_iter().enumerate() {
                let what = format!("{}{}, finalised again", what, if n == 1 { ", signed" } else { "" });
                let g = c.fin(ctx, self.mall())?;
                ctx.step();
                let now = g.done();
                if done.iter().zip(&now).any(|(a, b)| *a && !*b) {
                    return Err(format!("{}: a final input is lost", what));
                }
                let u = if n == 1 { self.signed(u, keys).unwrap_or(u) } else { u };
                let can = self.can(u);
                for ix in 0..now.len() {
                    if !done[ix] && !P::V2 && can[ix] == Some(true) && !now[ix] {
                        return Err(format!("{}: input {} is not finalised", what, ix));
                    }
                    if !done[ix] && can[ix] == Some(false) && now[ix] {
                        return Err(format!("{}: input {} is finalised", what, ix));
                    }
                }
                if now.iter().all(|d| *d) {
                    self.valid(ctx, &g, &mut seen, &what)?;
                }
            }
        }
        Ok(())
    }
}

/// Finalised PSBTs of every state, combined with each other.
fn finals<P: Flow>(ctx: &Ctx, s: &Session<P>, ms: &[u32], m: u32) -> Res {
    let mut seen = HashSet::new();
    let a = s.psbt[&m].clone().fin(ctx, s.mall())?;
    let da = a.done();
    if !da.contains(&true) {
        return Ok(());
    }
    for n in ms {
        let b = s.psbt[n].clone().fin(ctx, s.mall())?;
        let db = b.done();
        ctx.steps(2);
        let what = format!("combined with the finalised [{}]", s.show(*n));
        let c = P::combine2(a.clone(), b).map_err(|e| format!("{}: {}", what, e))?;
        let dc = c.done();
        if (0..dc.len()).any(|ix| dc[ix] != (da[ix] || db[ix])) {
            return Err(format!("{}: final inputs {:?}", what, dc));
        }
        if dc.iter().all(|d| *d) {
            s.valid(ctx, &c, &mut seen, &what)?;
        }
    }
    Ok(())
}

const N: Option<u32> = None;
const LAYS: &[Lay] = &[
    Lay { kinds: &["wsh(multi(2,A,B,C))"], types: &[], both: true, other: true, seq: 0xffff_ffff, lock: 0, need: false },
    Lay { kinds: &["pkh(A)", "wpkh(B)"], types: &[N, Some(0x82)], both: false, other: true, seq: 0xffff_fffe, lock: 90, need: true },
    Lay { kinds: &["sh(wpkh(A))", "sh(multi(2,A,B))"], types: &[Some(3)], both: false, other: false, seq: 0xffff_ffff, lock: 0, need: false },
    Lay { kinds: &["wsh(andor(pk(A),sha256(h0),and_v(v:pk(B),after(100))))"], types: &[], both: false, other: true, seq: 10, lock: 100, need: true },
    Lay { kinds: &["tr(A,{pk(B),pk(C)})"], types: &[], both: false, other: true, seq: 0xffff_ffff, lock: 0, need: false },
    Lay { kinds: &["tr(A)", "wpkh(A)"], types: &[Some(0x83), Some(2)], both: true, other: false, seq: 5, lock: 0, need: false },
    Lay { kinds: &["sh(wsh(multi(1,A,B)))", "pkh(A)"], types: &[Some(0x81), N], both: false, other: false, seq: 0xffff_ffff, lock: 0, need: false },
    Lay { kinds: &["wsh(and_v(v:pk(A),hash160(h0)))", "tr(B)"], types: &[], both: false, other: true, seq: 0xffff_fffd, lock: 5, need: false },
    Lay { kinds: &["pkh(A)", "wpkh(A)", "tr(A)"], types: &[], both: false, other: false, seq: 0xffff_ffff, lock: 0, need: false },
    Lay { kinds: &["wsh(or_d(pk(A),and_v(v:pkh(B),older(5))))"], types: &[], both: true, other: true, seq: 10, lock: 0, need: false },
    Lay { kinds: &["multi(1,A,B)", "wsh(pkh(C))"], types: &[], both: false, other: false, seq: 0xffff_ffff, lock: 0, need: false },
];
const MORE: &[Lay] = &[
    Lay { kinds: &["wsh(multi(2,A,B,C))", "wsh(multi(2,A,B,C))"], types: &[], both: false, other: false, seq: 0xffff_ffff, lock: 0, need: false },
    Lay { kinds: &["tr(A,{multi_a(2,B,C),and_v(v:pk(C),after(100))})"], types: &[Some(1)], both: true, other: true, seq: 10, lock: 100, need: false },
    Lay { kinds: &["wsh(thresh(2,pk(A),s:pk(B),sln:older(10)))", "sh(sortedmulti(1,B,A))"], types: &[N, Some(0x83)], both: false, other: false, seq: 10, lock: 0, need: false },
    Lay { kinds: &["tr(A,pk(B))", "tr(B,pk(A))"], types: &[Some(0x81), N], both: false, other: false, seq: 0xffff_ffff, lock: 0, need: false },
    Lay { kinds: &["wpkh(A)", "wpkh(B)", "wpkh(C)"], types: &[Some(3), Some(0x83), N], both: false, other: true, seq: 0xffff_ffff, lock: 0, need: false },
    Lay { kinds: &["sh(wsh(and_v(v:pk(A),older(10))))", "sh(and_v(v:pk(B),after(100)))"], types: &[], both: true, other: false, seq: 10, lock: 100, need: true },
    Lay { kinds: &["wsh(and_v(v:pk(A),and_v(v:sha256(h0),hash160(h1))))", "pkh(B)"], types: &[], both: false, other: true, seq: 0xffff_ffff, lock: 0, need: false },
    Lay { kinds: &["sh(wpkh(A))", "tr(C,{pk(A),pk(B)})"], types: &[], both: false, other: false, seq: 0xffff_ffff, lock: 0, need: false },
    Lay { kinds: &["wsh(multi(2,A,B,C))", "sh(multi(2,A,B,C))"], types: &[], both: false, other: false, seq: 0xffff_ffff, lock: 0, need: false },
];

fn flow<P: Flow>(ctx: &Ctx) {
    let deep = ctx.thorough && !ctx.errs;
    let mut states = 0;
    for l in LAYS.iter().chain(if deep { MORE } else { &[] }) {
        let s = Session::<P>::new(l);
        states += s.reach.len();
        let all: Vec<u32> = s.reach.iter().map(|(m, _)| *m).collect();
        // Who else is around: everybody, or those nearest to the start and to the end.
        let cut = |n: usize| -> Vec<u32> {
            if all.len() <= n { all.clone() } else { all[..n / 2].iter().chain(&all[all.len() - n / 2..]).copied().collect() }
        };
        let partners = if deep { all.clone() } else { cut(400) };
        let after = if deep { cut(400) } else { cut(64) };
        for m in &all {
            ctx.case(|| format!("{} [{}]", s.name, s.show(*m)), |ctx| s.state(ctx, *m, &partners, &after));
        }
        let fin: Vec<u32> = all.iter().copied().filter(|m| s.can(*m).iter().any(|c| *c != Some(false))).collect();
        let some: Vec<u32> = if deep || fin.len() <= 40 { fin.clone() } else { fin[..20].iter().chain(&fin[fin.len() - 20..]).copied().collect() };
        for m in &fin {
            ctx.case(|| format!("{} final [{}]", s.name, s.show(*m)), |ctx| finals(ctx, &s, &some, *m));
        }
    }
    ctx.bound("sessions", LAYS.len() + if deep { MORE.len() } else { 0 });
    ctx.bound("reachable sets of facts", states);
    ctx.bound("other parties", if deep { "combining: every reachable state; after finalising: 400 per session, nearest to the start and the end" } else { "combining: 400 states per session, after finalising 64, nearest to the start and the end" });
}

pub fn flow_v2(ctx: &Ctx) { flow::<v2::Psbt>(ctx) }
pub fn flow_v0(ctx: &Ctx) { flow::<v0::Psbt>(ctx) }
