//! R01 lock time, R02 Creator/Constructor/Updater sequences, R03 unique id, R04 modifiable flags.
use crate::c_codec::*;
use crate::c_combine::{change, TX_CHANGES};
use crate::c_sign::{bystand, bystanders};
use crate::fields::*;
use crate::model::*;
use crate::run::*;
use crate::spend::{describe, kind, kinds, spend, Ans, Form, Ot, Prov, SIGN_KINDS};
use crate::util::*;
use crate::wire::*;
use bitcoin::absolute::{Height, LockTime, Time};
use bitcoin::*;
use psbt_v2::v2::{Psbt, *};
use std::collections::{BTreeMap, HashSet};

// ---------------------------------------------------------------- R01

fn lock_input(i: usize, t: Option<u32>, h: Option<u32>, swap: bool) -> Input {
    let mut b = InputBuilder::new(&op(i as u32, i as u32));
    let time = |b: InputBuilder| match t {
        Some(t) => b.minimum_required_time_based_lock_time(Time::from_consensus(t).unwrap()),
        None => b,
    };
    let height = |b: InputBuilder| match h {
        Some(h) => b.minimum_required_height_based_lock_time(Height::from_consensus(h).unwrap()),
        None => b,
    };
    b = if swap { time(height(b)) } else { height(time(b)) };
    b.segwit_fund(txo(100_000, p2wpkh(i as u32))).build()
}

fn lock_case(ctx: &Ctx, fallback: Option<u32>, ins: &[(Option<u32>, Option<u32>)], deep: bool) -> Res {
    let expect = lock_rule(fallback, ins);
    let mut c = Creator::new();
    if let Some(f) = fallback {
        c = c.fallback_lock_time(LockTime::from_consensus(f));
    }
    let mut k = c.constructor_modifiable();
    for (i, (t, h)) in ins.iter().enumerate() {
        k = k.input(lock_input(i, *t, *h, i % 2 == 1));
    }
    k = k.output(Output::new(txo(1000, p2wpkh(9))));
    ctx.step();
    // The constructor hands over a PSBT only if the lock times agree.
    let built = k.psbt();
    let psbt = match (expect, built) {
        (None, Ok(p)) => return Err(format!("constructor accepted conflicting lock times: {}", p.serialize_hex())),
        (Some(_), Err(e)) => return Err(format!("constructor refused: {}", e)),
        (Some(_), Ok(p)) => p,
        (None, Err(e)) => {
            ctx.err(&e)?;
            // The same PSBT from bytes.
            let (_, mut w) = Psbt::base(ins.len(), 1);
            if let Some(f) = fallback {
                w.g.push(kv(3, [], f.to_le_bytes()));
            }
            for (m, (t, h)) in w.i.iter_mut().zip(ins) {
                if let Some(t) = t {
                    m.push(kv(0x11, [], t.to_le_bytes()));
                }
                if let Some(h) = h {
                    m.push(kv(0x12, [], h.to_le_bytes()));
                }
                m.push(kv(1, [], consensus::serialize(&txo(5, p2wpkh(1)))));
                m.push(kv(7, [], [1]));
                m.push(kv(8, [], [0]));
            }
            Psbt::deserialize(&w.bytes()).map_err(|e| format!("{:?}", e))?
        }
    };
    match (expect, psbt.determine_lock_time()) {
        (None, Ok(l)) => return Err(format!("chose {} although the inputs conflict", l)),
        (Some(x), Err(e)) => return Err(format!("failed, expected {}: {}", x, e)),
        (Some(x), Ok(l)) if l.to_consensus_u32() != x => return Err(format!("chose {}, expected {}", l, x)),
        (None, Err(e)) => ctx.err(&e)?,
        _ => {}
    }
    ctx.step();
    ctx.outcome(match expect {
        None => "conflict",
        Some(x) if ins.iter().all(|i| *i == (None, None)) => {
            if x == 0 { "none" } else { "fallback" }
        }
        Some(x) if x < 500_000_000 => "height",
        Some(_) => "time",
    });
    ctx.validated();
    if !deep {
        return Ok(());
    }
    ctx.state_h(&psbt);
    let ok = expect.is_some();
    let say = |what: &str, got: bool| if got == ok { Ok(()) } else { Err(format!("{}: accepted {}, expected {}", what, got, ok)) };
    say("Updater::new", Updater::new(psbt.clone()).is_ok())?;
    say("Updater::try_from", Updater::try_from(psbt.clone()).is_ok())?;
    let s = Signer::new(psbt.clone());
    say("Signer::new", s.is_ok())?;
    if let (Ok(s), Some(x)) = (&s, expect) {
        if s.unsigned_tx().lock_time.to_consensus_u32() != x {
            return Err(format!("Signer::unsigned_tx has lock time {}", s.unsigned_tx().lock_time));
        }
    }
    say("Finalizer::new", Finalizer::new(psbt.clone()).is_ok())?;
    let mut done = psbt.clone();
    for i in &mut done.inputs {
        i.final_script_sig = Some(ScriptBuf::new());
        i.final_script_witness = Some(Witness::from_slice(&[[1u8]]));
        i.witness_utxo = Some(txo(100_000, p2wpkh(1)));
    }
    let e = Extractor::new(done.clone());
    say("Extractor::new", e.is_ok())?;
    if let (Ok(e), Some(x)) = (&e, expect) {
        for (how, r) in [
            ("extract_tx", e.extract_tx_unchecked_fee_rate().map_err(|e| e.to_string())),
            ("with limit", e.extract_tx_with_fee_rate_limit(FeeRate::MAX).map_err(|e| e.to_string())),
        ] {
            match r {
                Ok(tx) if tx.lock_time.to_consensus_u32() == x => {}
                Ok(tx) => return Err(format!("{}: extracted with lock time {}, expected {}", how, tx.lock_time, x)),
                // Without inputs the outputs are not paid for.
                Err(_) if done.inputs.is_empty() && how != "extract_tx" => {}
                Err(e) => return Err(format!("{}: {}", how, e)),
            }
        }
    }
    // The roles that add to a PSBT see the same.
    let mut open = psbt.clone();
    open.global.tx_modifiable_flags = 3;
    let c = Constructor::<Modifiable>::new(open.clone()).map_err(|e| e.to_string())?;
    say("Constructor::psbt", c.psbt().is_ok())?;
    let c = Constructor::<Modifiable>::new(open.clone()).map_err(|e| e.to_string())?;
    say("Constructor::updater", c.updater().is_ok())?;
    let c = Constructor::<InputsOnlyModifiable>::new(open.clone()).map_err(|e| e.to_string())?;
    say("Constructor::updater (inputs)", c.updater().is_ok())?;
    let c = Constructor::<OutputsOnlyModifiable>::new(open).map_err(|e| e.to_string())?;
    say("Constructor::psbt (outputs)", c.psbt().is_ok())?;
    ctx.steps(9);
    Ok(())
}

pub fn lock_time(ctx: &Ctx) {
    lock_beside(ctx);
    let times = [None, Some(500_000_000), Some(500_000_001), Some(u32::MAX)];
    let heights = [None, Some(1), Some(2), Some(499_999_999)];
    let falls = [None, Some(0), Some(7), Some(499_999_999), Some(500_000_000), Some(u32::MAX)];
    let one: Vec<(Option<u32>, Option<u32>)> = times.iter().flat_map(|t| heights.iter().map(move |h| (*t, *h))).collect();
    let max = if ctx.thorough { 5 } else { 4 };
    ctx.bound("inputs", max);
    ctx.bound("requirements per input", "time in {none, 500000000, 500000001, 2^32-1} x height in {none, 1, 2, 499999999}");
    for n in 0..=max {
        // With more inputs, fewer values: the rule depends on presence and on order of values.
        let opts: Vec<_> = if n <= 3 {
            one.clone()
        } else {
            one.iter().filter(|(t, h)| *t != Some(u32::MAX) && *h != Some(499_999_999)).cloned().collect()
        };
        for x in 0..opts.len().pow(n as u32) {
            ctx.case(
                || format!("{} inputs #{}", n, x),
                |ctx| {
                    let mut y = x;
                    let mut ins = vec![];
                    for _ in 0..n {
                        ins.push(opts[y % opts.len()]);
                        y /= opts.len();
                    }
                    for (k, f) in falls.iter().enumerate() {
                        if n > 3 && k % 3 != x % 3 {
                            continue;
                        }
                        lock_case(ctx, *f, &ins, n <= 2 || k == x % falls.len())
                            .map_err(|e| format!("fallback {:?} inputs {:?}: {}", f, ins, e))?;
                    }
                    Ok(())
                },
            );
        }
    }
}

/// The rule whatever else is in the PSBT, and however many inputs there are.
fn lock_beside(ctx: &Ctx) {
    let locks: [[(Option<u32>, Option<u32>); 2]; 7] = [
        [(None, None), (None, None)],
        [(None, Some(9)), (None, None)],
        [(None, None), (Some(600_000_000), None)],
        [(Some(600_000_000), Some(9)), (None, Some(10))],
        [(Some(600_000_000), Some(9)), (Some(600_000_001), None)],
        [(Some(600_000_000), Some(9)), (Some(600_000_001), Some(8))],
        [(Some(600_000_000), None), (None, Some(8))],
    ];
    let by = bystanders::<Psbt>(true, 2, 2, |a, _| match a.k {
        K::G => a.kv.t == 3,
        K::I => matches!(a.kv.t, 0x11 | 0x12),
        K::O => false,
    });
    ctx.bound("other fields", "every other field value of the table");
    for (name, b) in by {
        ctx.case(
            || format!("beside {}", name),
            |ctx| {
                for l in &locks {
                    for fall in [None, Some(77u32)] {
                        let (mut p, _) = Psbt::base(2, 2);
                        p.global.fallback_lock_time = fall.map(LockTime::from_consensus);
                        for (i, (t, h)) in p.inputs.iter_mut().zip(l) {
                            i.min_time = t.map(|t| Time::from_consensus(t).unwrap());
                            i.min_height = h.map(|h| Height::from_consensus(h).unwrap());
                        }
                        bystand(&mut p, &[b]);
                        let want = lock_rule(fall, l);
                        let got = p.determine_lock_time().ok().map(|l| l.to_consensus_u32());
                        if got != want {
                            return Err(format!("lock times {:?} fallback {:?}: {:?}, expected {:?}", l, fall, got, want));
                        }
                        if Updater::new(p.clone()).is_ok() != want.is_some() {
                            return Err(format!("lock times {:?}: the updater decides otherwise", l));
                        }
                        let s = Signer::new(p.clone());
                        if s.is_ok() != want.is_some() || s.ok().map(|s| s.unsigned_tx().lock_time.to_consensus_u32()) != want {
                            return Err(format!("lock times {:?}: the signer decides otherwise", l));
                        }
                        ctx.steps(3);
                        ctx.validated();
                    }
                }
                Ok(())
            },
        );
    }
    let at = [0usize, 1, 127, 252, 253, 254, 255, 256, 257, 299];
    for x in at {
        for y in at {
            ctx.case(
                || format!("300 inputs, {} and {}", x, y),
                |ctx| {
                    for base in [(None, None), (Some(600_000_000), Some(9)), (None, Some(9)), (Some(600_000_000), None)] {
                        for a in [(None, None), (Some(600_000_007), None), (None, Some(11)), (Some(600_000_007), Some(11))] {
                            for b in [(None, None), (Some(600_000_005), None), (None, Some(13)), (Some(600_000_009), Some(3))] {
                                let mut l = vec![base; 300];
                                l[x] = a;
                                l[y] = b;
                                let (mut p, _) = Psbt::base(300, 1);
                                for (i, (t, h)) in p.inputs.iter_mut().zip(&l) {
                                    i.min_time = t.map(|t| Time::from_consensus(t).unwrap());
                                    i.min_height = h.map(|h| Height::from_consensus(h).unwrap());
                                }
                                let want = lock_rule(None, &l);
                                let got = p.determine_lock_time().ok().map(|l| l.to_consensus_u32());
                                if got != want {
                                    return Err(format!("{:?} but {:?} and {:?}: {:?}, expected {:?}", base, a, b, got, want));
                                }
                                ctx.step();
                                ctx.validated();
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

// ---------------------------------------------------------------- R02

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
enum Ph { Creator, Both, Ins, Outs, Bare, Updater, Dead }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Fallback(u32), Single, InMod, OutMod, Version(i32), ToBoth, ToIns, ToOuts, DefBoth, DefIns, DefOuts,
    In(u8), Out(u8), NoIn, NoOut, Done, Update, NewUpdater, Wire, Seq(u32, usize),
}
use Op::*;

enum Role {
    C(Creator), B(Constructor<Modifiable>), I(Constructor<InputsOnlyModifiable>), O(Constructor<OutputsOnlyModifiable>),
    P(Psbt), U(Updater), Dead,
}

fn ops(p: Ph, n_in: usize) -> Vec<Op> {
    match p {
        Ph::Creator => vec![
            Fallback(7), Fallback(600_000_000), Single, InMod, OutMod, Version(1), Version(-5), ToBoth, ToIns, ToOuts, Done,
            DefBoth, DefIns, DefOuts,
        ],
        Ph::Both => vec![In(0), In(1), In(2), Out(0), Out(1), NoIn, NoOut, Done, Update],
        Ph::Ins => vec![In(0), In(1), In(2), NoIn, NoOut, Done, Update],
        Ph::Outs => vec![Out(0), Out(1), NoIn, NoOut, Done, Update],
        Ph::Bare => vec![ToBoth, ToIns, ToOuts, NewUpdater, Wire],
        Ph::Updater => {
            let mut v = vec![Done];
            for k in 0..=n_in {
                v.push(Seq(0xffff_fffd, k));
                v.push(Seq(0, k));
            }
            v.push(Seq(1, usize::MAX));
            v
        }
        Ph::Dead => vec![],
    }
}

/// The inputs and outputs that can be added.
fn an_input(k: u8, n: usize) -> (Input, WMap) {
    use bitcoin::hashes::Hash;
    let o = op(n as u32 + 10 * k as u32, k as u32 + 3);
    let mut m = vec![kv(0x0e, [], o.txid.to_byte_array()), kv(0x0f, [], o.vout.to_le_bytes())];
    let i = match k {
        0 => Input::new(&o),
        1 => {
            m.push(kv(0x11, [], 500_000_000u32.to_le_bytes()));
            m.push(kv(1, [], consensus::serialize(&txo(9, p2wpkh(1)))));
            InputBuilder::new(&o)
                .minimum_required_time_based_lock_time(Time::from_consensus(500_000_000).unwrap())
                .segwit_fund(txo(9, p2wpkh(1)))
                .build()
        }
        _ => {
            let tx = prev_tx(1, k as u32 + 3, txo(10, p2pkh(1)));
            m.push(kv(0x12, [], 77u32.to_le_bytes()));
            m.push(kv(0, [], consensus::serialize(&tx)));
            m.push(kv(0x10, [], 5u32.to_le_bytes()));
            m.push(kv(0xf0, [1], [2, 3]));
            let mut i = InputBuilder::new(&o)
                .legacy_fund(tx)
                .minimum_required_height_based_lock_time(Height::from_consensus(77).unwrap())
                .build();
            i.sequence = Some(Sequence(5));
            i.unknowns.insert(psbt_v2::raw::Key { type_value: 0xf0, key: vec![1] }, vec![2, 3]);
            i
        }
    };
    (i, m)
}
fn an_output(k: u8, n: usize) -> (Output, WMap) {
    let t = txo(1 << (k * 20), p2wpkh(n as u32));
    let m = vec![kv(3, [], t.value.to_sat().to_le_bytes()), kv(4, [], t.script_pubkey.to_bytes())];
    (if k == 0 { Output::new(t) } else { OutputBuilder::new(t).build() }, m)
}

#[derive(Clone, PartialEq, Eq, Hash)]
struct Model { ph: Ph, fallback: Option<u32>, version: i32, flags: u8, i: Vec<WMap>, o: Vec<WMap> }

impl Model {
    fn new() -> Model { Model { ph: Ph::Creator, fallback: None, version: 2, flags: 0, i: vec![], o: vec![] } }
    fn w(&self) -> WPsbt {
        let mut g = vec![
            kv(0xfb, [], 2u32.to_le_bytes()), kv(2, [], self.version.to_le_bytes()), kv(4, [], cs(self.i.len() as u64)),
            kv(5, [], cs(self.o.len() as u64)), kv(6, [], [self.flags]),
        ];
        if let Some(f) = self.fallback {
            g.push(kv(3, [], f.to_le_bytes()));
        }
        WPsbt { g, i: self.i.clone(), o: self.o.clone() }
    }
    /// Returns whether the call is expected to succeed.
    fn step(&mut self, op: Op) -> bool {
        let lock_ok = lock_of(&self.w()).is_some();
        let mut ok = true;
        match op {
            Fallback(f) => self.fallback = Some(f),
            Single => self.flags |= 4,
            InMod => self.flags |= 1,
            OutMod => self.flags |= 2,
            Version(v) => self.version = v,
            DefBoth | DefIns | DefOuts => {
                *self = Model::new();
                (self.ph, self.flags) = match op {
                    DefBoth => (Ph::Both, 3),
                    DefIns => (Ph::Ins, 1),
                    _ => (Ph::Outs, 2),
                };
            }
            ToBoth | ToIns | ToOuts => {
                let (ph, need) = match op {
                    ToBoth => (Ph::Both, 3),
                    ToIns => (Ph::Ins, 1),
                    _ => (Ph::Outs, 2),
                };
                if self.ph == Ph::Creator {
                    self.flags = self.flags & !3 | need;
                } else {
                    ok = self.flags & need == need;
                }
                self.ph = ph;
            }
            In(k) => self.i.push(an_input(k, self.i.len()).1),
            Out(k) => self.o.push(an_output(k, self.o.len()).1),
            NoIn => self.flags &= !1,
            NoOut => self.flags &= !2,
            Done => {
                ok = matches!(self.ph, Ph::Creator | Ph::Updater) || lock_ok;
                self.ph = Ph::Bare;
            }
            Update => {
                ok = lock_ok;
                self.flags &= !3;
                self.ph = Ph::Updater;
            }
            NewUpdater => {
                ok = lock_ok;
                self.ph = Ph::Updater;
            }
            Wire => {}
            Seq(s, ix) => match self.i.get_mut(ix) {
                None => ok = false,
                Some(m) => {
                    m.retain(|p| p.t != 0x10);
                    m.push(kv(0x10, [], s.to_le_bytes()));
                }
            },
        }
        if !ok {
            self.ph = Ph::Dead;
        }
        ok
    }
}

fn act(ctx: &Ctx, r: Role, op: Op, n_in: usize, n_out: usize) -> Result<(Role, bool), String> {
    macro_rules! t {
        ($e:expr, $w:path) => {
            match $e {
                Ok(x) => ($w(x), true),
                Err(e) => {
                    ctx.err(&e)?;
                    (Role::Dead, false)
                }
            }
        };
    }
    Ok(match (r, op) {
        (Role::C(c), Fallback(f)) => (Role::C(c.fallback_lock_time(LockTime::from_consensus(f))), true),
        (Role::C(c), Single) => (Role::C(c.sighash_single()), true),
        (Role::C(c), InMod) => (Role::C(c.inputs_modifiable()), true),
        (Role::C(c), OutMod) => (Role::C(c.outputs_modifiable()), true),
        (Role::C(c), Version(v)) => (Role::C(c.transaction_version(transaction::Version(v))), true),
        (Role::C(c), ToBoth) => (Role::B(c.constructor_modifiable()), true),
        (Role::C(c), ToIns) => (Role::I(c.constructor_inputs_only_modifiable()), true),
        (Role::C(c), ToOuts) => (Role::O(c.constructor_outputs_only_modifiable()), true),
        (Role::C(_), DefBoth) => (Role::B(Default::default()), true),
        (Role::C(_), DefIns) => (Role::I(Default::default()), true),
        (Role::C(_), DefOuts) => (Role::O(Default::default()), true),
        (Role::C(c), Done) => (Role::P(c.psbt()), true),
        (Role::B(c), In(k)) => (Role::B(c.input(an_input(k, n_in).0)), true),
        (Role::B(c), Out(k)) => (Role::B(c.output(an_output(k, n_out).0)), true),
        (Role::B(c), NoIn) => (Role::B(c.no_more_inputs()), true),
        (Role::B(c), NoOut) => (Role::B(c.no_more_outputs()), true),
        (Role::B(c), Done) => t!(c.psbt(), Role::P),
        (Role::B(c), Update) => t!(c.updater(), Role::U),
        (Role::I(c), In(k)) => (Role::I(c.input(an_input(k, n_in).0)), true),
        (Role::I(c), NoIn) => (Role::I(c.no_more_inputs()), true),
        (Role::I(c), NoOut) => (Role::I(c.no_more_outputs()), true),
        (Role::I(c), Done) => t!(c.psbt(), Role::P),
        (Role::I(c), Update) => t!(c.updater(), Role::U),
        (Role::O(c), Out(k)) => (Role::O(c.output(an_output(k, n_out).0)), true),
        (Role::O(c), NoIn) => (Role::O(c.no_more_inputs()), true),
        (Role::O(c), NoOut) => (Role::O(c.no_more_outputs()), true),
        (Role::O(c), Done) => t!(c.psbt(), Role::P),
        (Role::O(c), Update) => t!(c.updater(), Role::U),
        (Role::P(p), ToBoth) => t!(Constructor::<Modifiable>::new(p), Role::B),
        (Role::P(p), ToIns) => t!(Constructor::<InputsOnlyModifiable>::new(p), Role::I),
        (Role::P(p), ToOuts) => t!(Constructor::<OutputsOnlyModifiable>::new(p), Role::O),
        (Role::P(p), NewUpdater) => t!(Updater::new(p), Role::U),
        (Role::P(p), Wire) => t!(Psbt::deserialize(&p.serialize()), Role::P),
        (Role::U(u), Seq(s, ix)) => t!(u.set_sequence(Sequence(s), ix), Role::U),
        (Role::U(u), Done) => (Role::P(u.psbt()), true),
        _ => unreachable!("operation not offered in this phase"),
    })
}

fn run_ops(ctx: &Ctx, seq: &[Op]) -> Res {
    let mut m = Model::new();
    let mut r = Role::C(if seq.len() % 2 == 0 { Creator::new() } else { Creator::default() });
    for op in seq {
        let (n_in, n_out) = (m.i.len(), m.o.len());
        let want = m.step(*op);
        let (next, got) = act(ctx, r, *op, n_in, n_out)?;
        ctx.step();
        if want != got {
            return Err(format!("{:?}: succeeded {}, expected {}", op, got, want));
        }
        r = next;
    }
    let lock_ok = lock_of(&m.w()).is_some();
    let psbt = match r {
        Role::Dead => {
            ctx.outcome("refused");
            ctx.validated();
            return Ok(());
        }
        Role::C(c) => Ok(c.psbt()),
        Role::P(p) => Ok(p),
        Role::U(u) => {
            if Some(u.id()) != id_of(&m.w()) {
                return Err("Updater::id differs from the transaction's".into());
            }
            Ok(u.psbt())
        }
        Role::B(c) => c.psbt(),
        Role::I(c) => c.psbt(),
        Role::O(c) => c.psbt(),
    };
    ctx.outcome(&format!("{:?}", m.ph));
    ctx.validated();
    match psbt {
        Err(e) if lock_ok => Err(format!("handing over the PSBT fails: {}", e)),
        Err(e) => ctx.err(&e),
        Ok(_) if !lock_ok && matches!(m.ph, Ph::Both | Ph::Ins | Ph::Outs) => Err("PSBT with conflicting lock times handed over".into()),
        Ok(p) => {
            let b = p.serialize();
            ctx.state(&b);
            if p.global.input_count != p.inputs.len() || p.global.output_count != p.outputs.len() {
                return Err(format!("counts {} {} with {} inputs, {} outputs", p.global.input_count, p.global.output_count, p.inputs.len(), p.outputs.len()));
            }
            match diff(&canon_of(Ver::V2, &m.w()), &canon_bytes(Ver::V2, &b, m.o.len())?) {
                Some(d) => Err(d),
                None => match Psbt::deserialize(&b) {
                    Ok(q) if q == p => Ok(()),
                    Ok(_) => Err("bytes parse to another value".into()),
                    Err(e) => Err(format!("bytes do not parse: {}", e)),
                },
            }
        }
    }
}

fn all_seqs(ctx: &Ctx, seq: &mut Vec<Op>, m: &Model, depth: usize) {
    ctx.case(|| format!("sequence {:?}", seq), |ctx| run_ops(ctx, seq));
    if depth == 0 {
        return;
    }
    for op in ops(m.ph, m.i.len()) {
        let mut n = m.clone();
        n.step(op);
        seq.push(op);
        all_seqs(ctx, seq, &n, depth - 1);
        seq.pop();
    }
}

pub fn constructing(ctx: &Ctx) {
    let depth = if ctx.thorough { 6 } else { 5 };
    ctx.bound("all call sequences up to length", depth);
    all_seqs(ctx, &mut vec![], &Model::new(), depth);
    // Deeper, one path per reachable state of the model.
    let (deep, max_maps) = if ctx.thorough { (10, 3) } else { (8, 3) };
    ctx.bound("breadth-first depth over model states", deep);
    let mut seen: HashSet<Model> = HashSet::new();
    let mut level: Vec<(Model, Vec<Op>)> = vec![(Model::new(), vec![])];
    for _ in 0..deep {
        let mut next = vec![];
        for (m, path) in &level {
            for op in ops(m.ph, m.i.len()) {
                let mut n = m.clone();
                n.step(op);
                if n.i.len() > max_maps || n.o.len() > max_maps || matches!(op, DefBoth | DefIns | DefOuts) {
                    continue;
                }
                // A second round through the roles is kept, but states are visited once.
                let mut p = path.clone();
                p.push(op);
                if p.len() > depth {
                    ctx.case(|| format!("path {:?}", p), |ctx| run_ops(ctx, &p));
                }
                if n.ph != Ph::Dead && seen.insert(n.clone()) {
                    next.push((n, p));
                }
            }
        }
        level = next;
    }
    // Long transactions.
    for n in [252usize, 253, 256, 300] {
        for stop in 0..3 {
            ctx.case(
                || format!("{} inputs and outputs added, variant {}", n, stop),
                |ctx| {
                    let mut seq = vec![[ToBoth, InMod, DefBoth][stop]];
                    if stop == 1 {
                        seq.extend([OutMod, ToBoth]);
                    }
                    for i in 0..n {
                        seq.push(In(if i % 2 == 0 { 0 } else { 1 }));
                        if stop != 2 || i % 5 == 0 {
                            seq.push(Out((i % 2) as u8));
                        }
                    }
                    if stop == 2 {
                        seq.push(Done);
                        seq.extend([Wire, ToBoth, In(0), Out(1)]);
                    }
                    seq.push(Update);
                    let len = n + (stop == 2) as usize;
                    for k in [0, 127, 251, 252, n - 1, len - 1].into_iter().filter(|k| *k < len) {
                        seq.push(Seq(k as u32, k));
                    }
                    run_ops(ctx, &seq)?;
                    for k in [len, n + 256, 65536] {
                        let mut s = seq.clone();
                        s.push(Seq(5, k));
                        run_ops(ctx, &s)?;
                    }
                    Ok(())
                },
            );
        }
    }
    // Roles entered with every flag byte.
    for flags in 0..=255u8 {
        for n in [0usize, 2] {
            ctx.case(
                || format!("flags {:#x}, {} inputs", flags, n),
                |ctx| {
                    let (_, mut w) = Psbt::base(n, 1);
                    w.g.retain(|p| p.t != 6);
                    w.g.push(kv(6, [], [flags]));
                    let p = Psbt::deserialize(&w.bytes()).map_err(|e| e.to_string())?;
                    let b = Constructor::<Modifiable>::new(p.clone());
                    let i = Constructor::<InputsOnlyModifiable>::new(p.clone());
                    let o = Constructor::<OutputsOnlyModifiable>::new(p.clone());
                    ctx.steps(3);
                    for (what, got, need) in [("both", b.is_ok(), 3), ("inputs", i.is_ok(), 1), ("outputs", o.is_ok(), 2)] {
                        if got != (flags & need == need) {
                            return Err(format!("constructor for {}: accepted {}", what, got));
                        }
                    }
                    // Unknown flag bits are left alone.
                    let keep = |r: Result<Psbt, DetermineLockTimeError>, want: u8, what: &str| match r {
                        Ok(q) if q.global.tx_modifiable_flags == want => Ok(()),
                        Ok(q) => Err(format!("{}: flags {:#x}, expected {:#x}", what, q.global.tx_modifiable_flags, want)),
                        Err(e) => Err(e.to_string()),
                    };
                    if let Ok(b) = b {
                        keep(b.updater().map(|u| u.psbt()), flags & !3, "updater")?;
                    }
                    if let Ok(i) = i {
                        keep(i.no_more_inputs().psbt(), flags & !1, "no_more_inputs")?;
                    }
                    if let Ok(o) = o {
                        keep(o.no_more_outputs().psbt(), flags & !2, "no_more_outputs")?;
                    }
                    if let Err(e) = Constructor::<Modifiable>::new(p.clone()) {
                        ctx.err(&e)?;
                    }
                    ctx.validated();
                    Ok(())
                },
            );
        }
    }
    // Constructing and updating keep every field of a PSBT that came from elsewhere.
    for a in Psbt::atoms() {
        for ix in 0..if a.k == K::G { 1 } else { 2 } {
            for full in 0..2 {
                if full == 1 && a.rare {
                    continue;
                }
                ctx.case(
                    || format!("keeps {}@{} full {}", a.name, ix, full),
                    |ctx| {
                        let mut sel = if full == 1 { all_atoms::<Psbt>(2, 2, |b| clash(a, b)) } else { vec![] };
                        sel.push((ix, a));
                        let (_, mut w) = build(2, 2, &complete(&sel));
                        if lock_of(&w).is_none() {
                            return Ok(());
                        }
                        w.g.retain(|p| p.t != 6);
                        w.g.push(kv(6, [], [0xf7]));
                        let p = Psbt::deserialize(&w.bytes()).map_err(|e| e.to_string())?;
                        let (i, im) = an_input(0, 9);
                        let (o, om) = an_output(1, 9);
                        let c = Constructor::<Modifiable>::new(p).map_err(|e| e.to_string())?;
                        let u = c.input(i).output(o).updater().map_err(|e| e.to_string())?;
                        let u = u.set_sequence(Sequence(3), 1).map_err(|e| e.to_string())?;
                        ctx.steps(5);
                        w.i.push(im);
                        w.o.push(om);
                        w.i[1].retain(|p| p.t != 0x10);
                        w.i[1].push(kv(0x10, [], 3u32.to_le_bytes()));
                        w.g.retain(|p| !matches!(p.t, 4..=6) || !p.kd.is_empty());
                        w.g.extend([kv(4, [], [3]), kv(5, [], [3]), kv(6, [], [0xf4])]);
                        let b = u.psbt().serialize();
                        ctx.state(&b);
                        ctx.validated();
                        match diff(&canon_of(Ver::V2, &w), &canon_bytes(Ver::V2, &b, 3)?) {
                            Some(d) => Err(d),
                            None => Ok(()),
                        }
                    },
                );
            }
        }
    }
}

// ---------------------------------------------------------------- R03

fn ids(ctx: &Ctx, p: &Psbt) -> Result<Option<Txid>, String> {
    let mut out: Vec<(&str, Option<Txid>)> = vec![
        ("Updater", Updater::new(p.clone()).ok().map(|u| u.id())),
        ("Signer", Signer::new(p.clone()).ok().and_then(|s| s.id().ok())),
    ];
    let mut funded = p.clone();
    for i in &mut funded.inputs {
        i.non_witness_utxo = None;
        i.witness_utxo = Some(txo(100_000, p2wpkh(1)));
        i.partial_sigs.clear();
        i.sighash_type = None;
    }
    if let Ok(f) = Finalizer::new(funded.clone()) {
        out.push(("Finalizer", Some(f.id())));
    } else if out[0].1.is_some() {
        return Err("Finalizer refuses a funded PSBT".into());
    }
    for i in &mut funded.inputs {
        i.final_script_sig = Some(ScriptBuf::new());
        i.final_script_witness = Some(Witness::new());
    }
    if let Ok(e) = Extractor::new(funded) {
        out.push(("Extractor", Some(e.id())));
    } else if out[0].1.is_some() {
        return Err("Extractor refuses a finalised PSBT".into());
    }
    ctx.steps(out.len() as u64);
    for (n, x) in &out {
        if *x != out[0].1 {
            return Err(format!("{} reports id {:?}, Updater {:?}", n, x, out[0].1));
        }
    }
    Ok(out[0].1)
}

fn id_case(ctx: &Ctx, w: &WPsbt, p: &Psbt) -> Res {
    let want = id_of(w);
    let got = ids(ctx, p)?;
    ctx.state(&p.serialize());
    ctx.validated();
    if want != got {
        return Err(format!("id is {:?}, the transaction's is {:?}", got, want));
    }
    Ok(())
}

pub fn unique_id(ctx: &Ctx) {
    ctx.bound("maps", "up to 3 inputs and 3 outputs");
    ctx.bound("combinations", "every field value alone, every pair of field values, all fields");
    for ni in 0..=3 {
        for no in 0..=3 {
            for full in 0..2 {
                ctx.case(
                    || format!("{}x{} full {}", ni, no, full),
                    |ctx| {
                        let sel = if full == 1 { all_atoms::<Psbt>(ni, no, |_| false) } else { vec![] };
                        let (p, w) = build(ni, no, &complete(&sel));
                        id_case(ctx, &w, &p)
                    },
                );
            }
        }
    }
    for (ni, no) in [(1, 252), (252, 1), (253, 253), (256, 257), (300, 300)] {
        for c in 0..4 {
            ctx.case(
                || format!("{}x{} change {}", ni, no, c),
                |ctx| {
                    let (_, mut w) = Psbt::base(ni, no);
                    match c {
                        1 => w.i[ni - 1].iter_mut().find(|p| p.t == 0x0f).unwrap().v[3] ^= 1,
                        2 => w.o[no - 1].iter_mut().find(|p| p.t == 3).unwrap().v[0] ^= 1,
                        3 => w.i[ni - 1].push(kv(0x12, [], 5u32.to_le_bytes())),
                        _ => {}
                    }
                    let p = Psbt::deserialize(&w.bytes()).map_err(|e| e.to_string())?;
                    id_case(ctx, &w, &p)
                },
            );
        }
    }
    let at = Psbt::atoms();
    let tx = |a: &Atom<Psbt>| {
        matches!((a.k, a.kv.t), (K::G, 2) | (K::G, 3) | (K::I, 0x0e..=0x0f) | (K::I, 0x11..=0x12) | (K::O, 3..=4) | (K::O, 9))
    };
    for a in at {
        for ix in 0..if a.k == K::G { 1 } else { 2 } {
            ctx.case(
                || format!("single {}@{}", a.name, ix),
                |ctx| {
                    let (p, w) = build(2, 2, &complete(&[(ix, a)]));
                    id_case(ctx, &w, &p)?;
                    let (b, wb) = Psbt::base(2, 2);
                    if !tx(a) && (id_of(&w) != id_of(&wb) || ids(ctx, &p)? != ids(ctx, &b)?) {
                        return Err("a field outside the transaction changes the id".into());
                    }
                    Ok(())
                },
            );
        }
    }
    for (x, a) in at.iter().enumerate() {
        for b in &at[x + 1..] {
            if a.rare || b.rare || clash(a, b) || (!ctx.thorough && !(tx(a) || tx(b)) && (a.k != b.k || !b.name.ends_with("#0"))) {
                continue;
            }
            for (i, j) in if tx(a) && tx(b) { vec![(0, 0), (0, 1), (1, 0)] } else { vec![(0, 1)] } {
                let i = if a.k == K::G { 0 } else { i };
                let j = if b.k == K::G { 0 } else { j };
                ctx.case(
                    || format!("pair {}@{} {}@{}", a.name, i, b.name, j),
                    |ctx| {
                        let (p, w) = build(2, 2, &complete(&[(i, a), (j, b)]));
                        id_case(ctx, &w, &p)
                    },
                );
            }
        }
    }
    // Every change of the transaction, and every two changes, give different ids.
    for x in 0..TX_CHANGES {
        for y in 0..TX_CHANGES {
            ctx.case(
                || format!("changes {} {}", x, y),
                |ctx| {
                    let mk = |c: &[usize]| {
                        let (_, mut w) = Psbt::base(2, 2);
                        for c in c {
                            change(Ver::V2, &mut w, *c);
                        }
                        Psbt::deserialize(&w.bytes()).map(|p| (p, w)).map_err(|e| e.to_string())
                    };
                    let (p, w) = mk(&[x])?;
                    let (q, v) = mk(&[y])?;
                    let (r, u) = mk(&[x, y])?;
                    id_case(ctx, &w, &p)?;
                    id_case(ctx, &v, &q)?;
                    id_case(ctx, &u, &r)?;
                    if (ids(ctx, &p)? == ids(ctx, &q)?) != (id_of(&w) == id_of(&v)) {
                        return Err("ids are equal although the transactions differ, or the reverse".into());
                    }
                    Ok(())
                },
            );
        }
    }
    // Sequences of updates leave the id alone.
    for n in 0..=3usize {
        let seqs = [0u32, 1, 0x0040_0001, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];
        for x in 0..(seqs.len() + 1).pow(n as u32) {
            ctx.case(
                || format!("sequences {} of {}", x, n),
                |ctx| {
                    let (p, w) = Psbt::base(n, 1);
                    let mut u = Updater::new(p).map_err(|e| e.to_string())?;
                    let first = u.id();
                    let mut y = x;
                    for k in 0..n {
                        let s = y % (seqs.len() + 1);
                        y /= seqs.len() + 1;
                        if s > 0 {
                            u = u.set_sequence(Sequence(seqs[s - 1]), k).map_err(|e| e.to_string())?;
                            if u.id() != first {
                                return Err(format!("sequence {:#x} changes the id", seqs[s - 1]));
                            }
                        }
                    }
                    id_case(ctx, &w, &u.psbt())
                },
            );
        }
    }
}

// ---------------------------------------------------------------- R04

fn flag_rule(flags: u8, used: &[u8]) -> u8 {
    let mut f = flags;
    for ty in used {
        if ty & 0x80 == 0 {
            f &= !1;
        }
        if ty & 0x1f != 2 {
            f &= !2;
        }
        if ty & 0x1f == 3 {
            f |= 4;
        }
    }
    f
}

pub fn flags(ctx: &Ctx) {
    use EcdsaSighashType::*;
    let types = [All, None, Single, AllPlusAnyoneCanPay, NonePlusAnyoneCanPay, SinglePlusAnyoneCanPay];
    for flags in 0..=255u8 {
        for a in types {
            ctx.case(
                || format!("direct {:#x} {:?}", flags, a),
                |ctx| {
                    let (mut p, _) = Psbt::base(2, 2);
                    p.global.tx_modifiable_flags = flags;
                    for b in types {
                        let mut s = Signer::new(p.clone()).map_err(|e| e.to_string())?;
                        s.ecdsa_clear_tx_modifiable(a);
                        s.ecdsa_clear_tx_modifiable(b);
                        ctx.steps(2);
                        let q = s.psbt();
                        let want = flag_rule(flags, &[a as u8, b as u8]);
                        if q.global.tx_modifiable_flags != want {
                            return Err(format!("then {:?}: {:#x}, expected {:#x}", b, q.global.tx_modifiable_flags, want));
                        }
                        let mut back = q.clone();
                        back.global.tx_modifiable_flags = flags;
                        if back != p {
                            return Err("another field changed".into());
                        }
                        ctx.state_h(&q);
                        ctx.validated();
                    }
                    Ok(())
                },
            );
        }
    }
    // Through signing: assignments of sighash types to inputs, and which inputs the provider has keys for.
    let max = 3usize;
    ctx.bound("inputs signed", max);
    ctx.bound("flag bytes", if ctx.thorough { "0..255 with one input, 0..15 and extremes otherwise" } else { "0..7 and 0xff" });
    let opts = types.len() + 1;
    for n in 0..=max {
        for x in 0..opts.pow(n as u32) {
            let tys: Vec<Option<EcdsaSighashType>> =
                (0..n).map(|k| x / opts.pow(k as u32) % opts).map(|c| if c == 0 { Option::None } else { Some(types[c - 1]) }).collect();
            for keys in 0..1usize << n {
                ctx.case(
                    || format!("sign {:?} keys {:b}", tys, keys),
                    |ctx| {
                        let (mut p, _) = Psbt::base(n, 3);
                        for (k, i) in p.inputs.iter_mut().enumerate() {
                            i.witness_utxo = Some(txo(70_000, p2wpkh(k as u32)));
                            i.bip32_derivations.insert(spk_(k as u32), ks([0; 4], &[]));
                            i.sighash_type = tys[k].map(|t| t.into());
                            if k == 1 {
                                // Someone else's signature is not ours.
                                i.partial_sigs.insert(pk(30), ecdsa_sig(30, Single));
                            }
                        }
                        let prov: BTreeMap<PublicKey, PrivateKey> =
                            (0..n).filter(|k| keys >> k & 1 == 1).map(|k| (pk(k as u32), privk(k as u32))).collect();
                        let used: Vec<u8> =
                            (0..n).filter(|k| keys >> k & 1 == 1).map(|k| tys[k].unwrap_or(All) as u8).collect();
                        let fl: Vec<u8> = if ctx.thorough && n == 1 {
                            (0..=255).collect()
                        } else if ctx.thorough {
                            (0..16).chain([0xf0, 0xff]).collect()
                        } else if n == 3 {
                            vec![0, 3, 4, 0xff]
                        } else {
                            vec![0, 1, 2, 3, 4, 5, 6, 7, 0xff]
                        };
                        for f in fl {
                            let mut q = p.clone();
                            q.global.tx_modifiable_flags = f;
                            let s = Signer::new(q.clone()).map_err(|e| e.to_string())?;
                            let (r, who) = match s.sign(&prov, secp()) {
                                Ok(r) => r,
                                Err(e) => return Err(format!("signing fails: {:?}", e)),
                            };
                            ctx.step();
                            if who.values().filter(|v| !v.is_empty()).count() != used.len() {
                                return Err(format!("signed inputs {:?}, expected {:b}", who, keys));
                            }
                            let want = flag_rule(f, &used);
                            if r.global.tx_modifiable_flags != want {
                                return Err(format!("flags {:#x} became {:#x}, expected {:#x}", f, r.global.tx_modifiable_flags, want));
                            }
                            ctx.state_h(&r);
                            ctx.validated();
                        }
                        ctx.outcome(if used.is_empty() { "nothing signed" } else { "signed" });
                        Ok(())
                    },
                );
            }
        }
    }
    // Several keys for one input, and signatures added in two rounds.
    for a in 0..opts {
        for b in 0..opts {
            for split in 0..4usize {
                ctx.case(
                    || format!("rounds {} {} {}", a, b, split),
                    |ctx| {
                        let (mut p, _) = Psbt::base(2, 2);
                        let ws = bitcoin::script::Builder::new()
                            .push_int(2).push_key(&pk(1)).push_key(&pk(2)).push_int(2)
                            .push_opcode(opcodes::all::OP_CHECKMULTISIG).into_script();
                        for (k, c) in [(0, a), (1, b)] {
                            let i = &mut p.inputs[k];
                            i.witness_utxo = Some(txo(70_000, ws.to_p2wsh()));
                            i.witness_script = Some(ws.clone());
                            for j in [1, 2] {
                                i.bip32_derivations.insert(spk_(j), ks([0; 4], &[]));
                            }
                            i.sighash_type = if c == 0 { Option::None } else { Some(types[c - 1].into()) };
                        }
                        for f in 0..8u8 {
                            let mut q = p.clone();
                            q.global.tx_modifiable_flags = f;
                            let first: BTreeMap<_, _> = [1u32, 2].iter().filter(|k| split >> (*k - 1) & 1 == 1).map(|k| (pk(*k), privk(*k))).collect();
                            let both: BTreeMap<_, _> = [1u32, 2].iter().map(|k| (pk(*k), privk(*k))).collect();
                            let (q, _) = Signer::new(q).map_err(|e| e.to_string())?.sign(&first, secp()).map_err(|e| format!("{:?}", e))?;
                            let ty = |c: usize| if c == 0 { 1 } else { types[c - 1] as u8 };
                            let used: &[u8] = if first.is_empty() { &[] } else { &[ty(a), ty(b)] };
                            if q.global.tx_modifiable_flags != flag_rule(f, used) {
                                return Err(format!("after round 1: {:#x} became {:#x}", f, q.global.tx_modifiable_flags));
                            }
                            let (q, _) = Signer::new(q).map_err(|e| e.to_string())?.sign(&both, secp()).map_err(|e| format!("{:?}", e))?;
                            ctx.steps(2);
                            if q.global.tx_modifiable_flags != flag_rule(f, &[ty(a), ty(b)]) {
                                return Err(format!("after round 2: {:#x} became {:#x}", f, q.global.tx_modifiable_flags));
                            }
                            ctx.validated();
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // Every kind of output.
    let kinds = kinds(SIGN_KINDS);
    let filler = kind("wpkh(L)");
    ctx.bound("kinds of output signed", kinds.len());
    for k in &kinds {
        for (n, ty) in [Option::None].into_iter().chain(types.map(Some)).enumerate() {
            ctx.case(
                || format!("{} type {:?}", k.name, ty),
                |ctx| {
                    let sp = spend(&[k.spk.clone(), filler.spk.clone()], 2, 2, 0, &[0xffff_ffff; 2]);
                    let mut p = sp.v2();
                    for (ix, k) in [k, &filler].into_iter().enumerate() {
                        describe(&mut p.inputs[ix], k);
                        sp.fund(&mut p.inputs[ix], ix, if k.segwit() && n % 2 == 0 { Form::Wit } else { Form::Non });
                        p.inputs[ix].sighash_type = if ix == 0 { ty.map(|t| t.into()) } else { Some(EcdsaSighashType::Single.into()) };
                    }
                    let unc: u32 = k.keys.iter().filter(|k| k.unc).map(|k| 1 << k.i).sum();
                    let all: u32 = k.keys.iter().map(|k| 1 << k.i).fold(0, |a, b| a | b);
                    let one = 1 << k.keys[0].i;
                    for f in 0..8u8 {
                        for mask in [0, one, all, all | 1 << 11] {
                            let mut q = p.clone();
                            q.global.tx_modifiable_flags = f;
                            let pr = Prov { mask, ans: Ans::Both, unc };
                            let (r, who) = Signer::new(q).map_err(|e| e.to_string())?.sign(&pr, secp()).map_err(|e| format!("{:?}", e))?;
                            let mut used: Vec<u8> = vec![];
                            if k.ot != Ot::Tr && mask & all != 0 {
                                used.push(ty.unwrap_or(All) as u8);
                            }
                            if mask >> 11 & 1 == 1 {
                                used.push(3);
                            }
                            ctx.step();
                            ctx.validated();
                            if r.global.tx_modifiable_flags != flag_rule(f, &used) {
                                return Err(format!("flags {:#x} became {:#x} with {:?}", f, r.global.tx_modifiable_flags, who));
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // Other fields, and long transactions.
    let by = bystanders::<Psbt>(ctx.thorough, 2, 2, |a, _| match a.k {
        K::G => a.kv.t == 6,
        K::I => matches!(a.kv.t, 0 | 1 | 3..=8),
        K::O => false,
    });
    ctx.bound("other fields", "every other field value of the table");
    let wpkh = |n: usize, n_out: usize| {
        let (mut p, _) = Psbt::base(n, n_out);
        for (k, i) in p.inputs.iter_mut().enumerate() {
            i.witness_utxo = Some(txo(70_000, p2wpkh(k as u32 % 4)));
            i.bip32_derivations.insert(spk_(k as u32 % 4), ks([0; 4], &[]));
        }
        p
    };
    for (name, b) in by {
        ctx.case(
            || format!("beside {}", name),
            |ctx| {
                for ty in types {
                    for keys in [0, 1u32, 2, 3] {
                        let mut p = wpkh(2, 2);
                        p.inputs[0].sighash_type = Some(ty.into());
                        p.inputs[1].sighash_type = Some(AllPlusAnyoneCanPay.into());
                        bystand(&mut p, &[b]);
                        if p.determine_lock_time().is_err() {
                            continue;
                        }
                        p.global.tx_modifiable_flags = 3;
                        let prov: BTreeMap<PublicKey, PrivateKey> = (0..2).filter(|k| keys >> k & 1 == 1).map(|k| (pk(k), privk(k))).collect();
                        let used: Vec<u8> = [ty as u8, 0x81].into_iter().enumerate().filter(|(k, _)| keys >> k & 1 == 1).map(|(_, t)| t).collect();
                        let (r, _) = Signer::new(p).map_err(|e| e.to_string())?.sign(&prov, secp()).map_err(|e| format!("{:?}", e))?;
                        ctx.step();
                        ctx.validated();
                        if r.global.tx_modifiable_flags != flag_rule(3, &used) {
                            return Err(format!("{:?} keys {:b}: flags {:#x}", ty, keys, r.global.tx_modifiable_flags));
                        }
                    }
                }
                Ok(())
            },
        );
    }
    for at in [0usize, 127, 253, 255, 256, 299] {
        ctx.case(
            || format!("300 inputs, {} signed", at),
            |ctx| {
                for ty in types {
                    for others in [Option::None, Some(SinglePlusAnyoneCanPay), Some(NonePlusAnyoneCanPay)] {
                        let mut p = wpkh(300, 300);
                        for (k, i) in p.inputs.iter_mut().enumerate() {
                            i.sighash_type = Some(if k == at { ty } else { others.unwrap_or(All) }.into());
                            if k != at && others.is_none() {
                                i.bip32_derivations.clear();
                            }
                        }
                        p.global.tx_modifiable_flags = 3;
                        let prov: BTreeMap<PublicKey, PrivateKey> = (0..4).map(|k| (pk(k), privk(k))).collect();
                        let (r, _) = Signer::new(p).map_err(|e| e.to_string())?.sign(&prov, secp()).map_err(|e| format!("{:?}", e))?;
                        ctx.step();
                        ctx.validated();
                        let used: Vec<u8> = others.into_iter().map(|o| o as u8).chain([ty as u8]).collect();
                        if r.global.tx_modifiable_flags != flag_rule(3, &used) {
                            return Err(format!("{:?} among {:?}: flags {:#x}", ty, others, r.global.tx_modifiable_flags));
                        }
                    }
                }
                Ok(())
            },
        );
    }
}
