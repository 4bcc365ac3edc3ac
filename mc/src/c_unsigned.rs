//! R05: which transactions a version 0 PSBT is created from, and what it then holds.
use crate::fields::*;
use crate::run::*;
use crate::util::*;
use crate::wire::*;
use bitcoin::consensus::serialize as cser;
use bitcoin::*;
use psbt_v2::v0::{self, bitcoin::Error};

fn sigs() -> Vec<ScriptBuf> {
    [vec![], vec![0x00], vec![0x51], vec![0x6a; 252], vec![0x01; 253], vec![0x00; 70_000]].into_iter().map(ScriptBuf::from_bytes).collect()
}
fn wits() -> Vec<Witness> {
    let w = |v: &[Vec<u8>]| Witness::from_slice(v);
    vec![Witness::new(), w(&[vec![]]), w(&[vec![], vec![]]), w(&[vec![0]]), w(&[vec![1; 72], vec![2; 33]]), w(&vec![vec![]; 253]), w(&[vec![7; 70_000]])]
}

/// A transaction whose inputs have these script signatures and witnesses.
fn tx_of(ins: &[(ScriptBuf, Witness)], n_out: usize, version: i32, lock: u32, seqs: u32) -> Transaction {
    let mut t = base_tx(ins.len(), n_out);
    t.version = transaction::Version(version);
    t.lock_time = absolute::LockTime::from_consensus(lock);
    for (i, (x, (s, w))) in t.input.iter_mut().zip(ins).enumerate() {
        x.script_sig = s.clone();
        x.witness = w.clone();
        x.sequence = Sequence(seqs.wrapping_sub(i as u32));
    }
    t
}

fn why(ctx: &Ctx, e: &Error, tx: &Transaction) -> Res {
    match e {
        Error::UnsignedTxHasScriptSigs if tx.input.iter().all(|i| i.script_sig.is_empty()) => return Err("blames script signatures, there are none".into()),
        Error::UnsignedTxHasScriptWitnesses if tx.input.iter().all(|i| i.witness.is_empty()) => return Err("blames witnesses, there are none".into()),
        _ => {}
    }
    ctx.err(e)
}

fn case(ctx: &Ctx, tx: Transaction) -> Res {
    let bare = tx.input.iter().all(|i| i.script_sig.is_empty() && i.witness.is_empty());
    let sig = tx.input.iter().any(|i| !i.script_sig.is_empty());
    ctx.outcome(if bare { "created" } else if sig { "refused: script signature" } else { "refused: witness" });
    ctx.steps(3);
    ctx.validated();
    let wire = |b: Vec<u8>| WPsbt { g: vec![kv(0, [], b)], i: vec![vec![]; tx.input.len()], o: vec![vec![]; tx.output.len()] }.bytes();
    let created = v0::Psbt::from_unsigned_tx(tx.clone());
    // The same transaction in a PSBT's bytes, without its witnesses: they cannot be seen there.
    let legacy = legacy_ser(&tx);
    let read = v0::Psbt::deserialize(&wire(legacy.clone()));
    match (&read, sig) {
        (Ok(_), true) => return Err("read a PSBT whose transaction has script signatures".into()),
        (Err(e), false) => return Err(format!("did not read the PSBT without script signatures: {}", e)),
        (Err(e), true) => why(ctx, e, &tx)?,
        (Ok(p), false) => {
            let mut t = tx.clone();
            t.input.iter_mut().for_each(|i| i.witness = Witness::new());
            if p.unsigned_tx != t {
                return Err("read another transaction".into());
            }
        }
    }
    // And with them: BIP-174 has the old format only.
    let full = cser(&tx);
    if full != legacy && v0::Psbt::deserialize(&wire(full)).is_ok() {
        return Err("read a PSBT whose transaction is in the format with witnesses".into());
    }
    let p = match created {
        Ok(_) if !bare => return Err("created from a transaction that is not unsigned".into()),
        Err(e) if bare => return Err(format!("refused: {}", e)),
        Err(e) => return why(ctx, &e, &tx),
        Ok(p) => p,
    };
    ctx.state_h(&p);
    if p.unsigned_tx != tx {
        return Err("holds another transaction".into());
    }
    if p.version != 0 || !p.xpub.is_empty() || !p.proprietary.is_empty() || !p.unknown.is_empty() {
        return Err("created with global fields".into());
    }
    if p.inputs.len() != tx.input.len() || p.outputs.len() != tx.output.len() {
        return Err(format!("{} input and {} output maps", p.inputs.len(), p.outputs.len()));
    }
    if p.inputs.iter().any(|i| *i != Default::default()) || p.outputs.iter().any(|o| *o != Default::default()) {
        return Err("created with fields".into());
    }
    if p.serialize() != wire(legacy) {
        return Err(format!("written as {}", p.serialize_hex()));
    }
    if read.ok().as_ref() != Some(&p) {
        return Err("reads as another PSBT".into());
    }
    if p.clone().extract_tx_unchecked_fee_rate() != tx {
        return Err("extracts another transaction".into());
    }
    let found = p.iter_funding_utxos().collect::<Vec<_>>();
    if found.len() != tx.input.len() || found.iter().any(|r| r.is_ok()) {
        return Err("funding UTXOs from nowhere".into());
    }
    Ok(())
}

pub fn creating(ctx: &Ctx) {
    let (s, w) = (sigs(), wits());
    // Every way to fill up to so many inputs.
    let most = if ctx.thorough { 3 } else { 2 };
    let one: Vec<(usize, usize)> = (0..s.len()).flat_map(|a| (0..w.len()).map(move |b| (a, b))).collect();
    let mut all: Vec<Vec<(usize, usize)>> = vec![vec![]];
    let mut last = all.clone();
    for n in 1..=most {
        // The biggest ones only where there are few inputs.
        let pick: Vec<_> = one.iter().filter(|(a, b)| n < 3 || (*a < 3 && *b < 4)).copied().collect();
        let from: Vec<_> = last.iter().filter(|v| n < 3 || v.iter().all(|(a, b)| *a < 3 && *b < 4)).cloned().collect();
        last = from.into_iter().flat_map(|v| pick.iter().map(move |x| [&v[..], &[*x]].concat()).collect::<Vec<_>>()).collect();
        all.extend(last.iter().cloned());
    }
    ctx.bound("inputs", most as u64);
    for v in &all {
        for n_out in [0usize, 1, 2] {
            ctx.case(
                || format!("inputs {:?}, {} outputs", v, n_out),
                |ctx| {
                    let ins: Vec<_> = v.iter().map(|(a, b)| (s[*a].clone(), w[*b].clone())).collect();
                    case(ctx, tx_of(&ins, n_out, 2, 0, u32::MAX))
                },
            );
        }
    }
    // Every header of the transaction.
    for version in [i32::MIN, -1, 0, 1, 2, 3, i32::MAX] {
        for lock in [0, 1, 499_999_999, 500_000_000, u32::MAX] {
            for seq in [0, 1, 1 << 22, 1 << 31, u32::MAX - 2, u32::MAX] {
                for (n_in, n_out) in [(0usize, 0usize), (0, 1), (1, 0), (1, 1), (2, 3), (3, 2), (253, 1), (1, 253)] {
                    for bad in [None, Some((1usize, 0usize)), Some((0, 1))] {
                        let Some(last) = n_in.checked_sub(1).or(bad.is_none().then_some(0)) else { continue };
                        ctx.case(
                            || format!("version {}, lock time {}, sequence {}, {} inputs, {} outputs, last has {:?}", version, lock, seq, n_in, n_out, bad),
                            |ctx| {
                                let mut ins = vec![(ScriptBuf::new(), Witness::new()); n_in];
                                if let Some((a, b)) = bad {
                                    ins[last] = (s[a].clone(), w[b].clone());
                                }
                                case(ctx, tx_of(&ins, n_out, version, lock, seq))
                            },
                        );
                    }
                }
            }
        }
    }
    // One spoiled input anywhere in a long transaction.
    let n = if ctx.thorough { 70_000 } else { 300 };
    let spots: Vec<usize> = if ctx.thorough { FAR.iter().copied().chain([65_534, 65_535, 65_536, 69_999]).collect() } else { (0..300).collect() };
    for at in spots {
        for (a, b) in [(1, 0), (0, 1), (2, 4)] {
            ctx.case(
                || format!("{} inputs, input {} has {} {}", n, at, a, b),
                |ctx| {
                    let mut ins = vec![(ScriptBuf::new(), Witness::new()); n];
                    ins[at] = (s[a].clone(), w[b].clone());
                    case(ctx, tx_of(&ins, 1, 2, 0, u32::MAX))
                },
            );
        }
    }
}
