//! F02 (extraction limits) and F03 (fees and funding UTXOs), for both versions.
use crate::c_sign::{bystand, bystanders};
use crate::fields::*;
use crate::model::*;
use crate::run::*;
use crate::util::*;
use crate::wire::*;
use bitcoin::*;
use psbt_v2::{v0, v2};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Fund {
    /// Only a witness UTXO.
    Wit,
    /// Only the previous transaction, spending this output of it.
    Non(u32),
    /// Both, in agreement.
    Both(u32),
    Missing,
    /// The previous transaction has this many outputs less than the outpoint needs.
    Beyond(u32),
}
use Fund::*;

const M: u64 = 2_100_000_000_000_000;

fn funded(f: Fund, i: usize, sat: u64) -> (OutPoint, Option<TxOut>, Option<Transaction>, Option<TxOut>) {
    let out = txo(sat, p2wpkh(10 + i as u32));
    let with = |n: u32| {
        let t = prev_tx(i as u32, n, out.clone());
        (OutPoint { txid: txid_of(&t), vout: n }, t)
    };
    match f {
        Wit => (op(i as u32, 1), Some(out.clone()), None, Some(out)),
        Missing => (op(i as u32, 1), None, None, None),
        Non(n) => {
            let (o, t) = with(n);
            (o, None, Some(t), Some(out))
        }
        Both(n) => {
            let (o, t) = with(n);
            (o, Some(out.clone()), Some(t), Some(out))
        }
        Beyond(k) => {
            let (mut o, t) = with(1);
            o.vout = if k == u32::MAX { u32::MAX } else { t.output.len() as u32 + k };
            (o, None, Some(t), None)
        }
    }
}

struct Pair { p0: v0::Psbt, p2: v2::Psbt, utxo: Vec<Option<TxOut>> }

fn make(ins: &[(Fund, u64)], outs: &[u64]) -> Pair {
    let mut tx = base_tx(0, 0);
    let f: Vec<_> = ins.iter().enumerate().map(|(i, (f, v))| funded(*f, i, *v)).collect();
    for x in &f {
        tx.input.push(TxIn { previous_output: x.0, sequence: Sequence::MAX, ..Default::default() });
    }
    for (i, v) in outs.iter().enumerate() {
        tx.output.push(txo(*v, p2wpkh(40 + i as u32)));
    }
    let mut p2 = v2::Creator::new().psbt();
    p2.inputs = tx.input.iter().map(|i| v2::Input::new(&i.previous_output)).collect();
    p2.outputs = tx.output.iter().map(|o| v2::Output::new(o.clone())).collect();
    p2.global.input_count = ins.len();
    p2.global.output_count = outs.len();
    let mut p0 = v0_from(tx).0;
    let mut utxo = vec![];
    for (i, (_, w, n, u)) in f.into_iter().enumerate() {
        p0.inputs[i].witness_utxo = w.clone();
        p2.inputs[i].witness_utxo = w;
        p0.inputs[i].non_witness_utxo = n.clone();
        p2.inputs[i].non_witness_utxo = n;
        utxo.push(u);
    }
    Pair { p0, p2, utxo }
}

/// Other fields for the one or the other version.
#[derive(Clone, Default)]
struct By { v0: Vec<(usize, usize)>, v2: Vec<(usize, usize)> }

fn fee_case(ctx: &Ctx, ins: &[(Fund, u64)], outs: &[u64]) -> Res { fee_case_by(ctx, ins, outs, &By::default()) }
fn fee_case_by(ctx: &Ctx, ins: &[(Fund, u64)], outs: &[u64], by: &By) -> Res {
    let Pair { mut p0, mut p2, utxo } = make(ins, outs);
    bystand(&mut p0, &by.v0);
    bystand(&mut p2, &by.v2);
    let mut want: Option<u128> = Some(0);
    for u in &utxo {
        want = want.zip(u.as_ref()).map(|(a, u)| a + u.value.to_sat() as u128);
    }
    let sum_in = want.filter(|s| *s <= u64::MAX as u128);
    let sum_out = Some(outs.iter().map(|x| *x as u128).sum::<u128>()).filter(|s| *s <= u64::MAX as u128);
    let fee = sum_in.zip(sum_out).and_then(|(a, b)| a.checked_sub(b)).map(|x| x as u64);
    ctx.outcome(if fee.is_some() { "fee" } else if want.is_none() { "utxo not found" } else if sum_in.is_none() || sum_out.is_none() { "overflow" } else { "negative" });
    let f2 = p2.fee();
    let f0 = p0.fee();
    if f2.as_ref().ok().map(|a| a.to_sat()) != fee {
        return Err(format!("v2 fee {:?}, expected {:?}", f2, fee));
    }
    if f0.as_ref().ok().map(|a| a.to_sat()) != fee {
        return Err(format!("v0 fee {:?}, expected {:?}", f0, fee));
    }
    for e in f2.err() {
        ctx.err(&e)?;
    }
    for e in f0.err() {
        ctx.err(&e)?;
    }
    let u2: Vec<_> = p2.iter_funding_utxos().collect();
    let u0: Vec<_> = p0.iter_funding_utxos().collect();
    if u2.len() != utxo.len() || u0.len() != utxo.len() {
        return Err("number of funding UTXOs".into());
    }
    for (i, u) in utxo.iter().enumerate() {
        if u2[i].as_ref().ok().copied() != u.as_ref() || p2.inputs[i].funding_utxo().ok() != u.as_ref() {
            return Err(format!("v2 funding UTXO {} is {:?}, expected {:?}", i, u2[i], u));
        }
        if u0[i].as_ref().ok().copied() != u.as_ref() || p0.spend_utxo(i).ok() != u.as_ref() {
            return Err(format!("v0 funding UTXO {} is {:?} / {:?}, expected {:?}", i, u0[i], p0.spend_utxo(i), u));
        }
        if let Err(e) = &u2[i] {
            ctx.err(e)?;
        }
        if let Err(e) = &u0[i] {
            ctx.err(e)?;
        }
        if let Err(e) = p0.spend_utxo(i) {
            ctx.err(&e)?;
        }
    }
    for i in [utxo.len(), utxo.len() + 1, usize::MAX] {
        match p0.spend_utxo(i) {
            Ok(u) => return Err(format!("UTXO of input {}: {:?}", i, u)),
            Err(e) => ctx.err(&e)?,
        }
    }
    ctx.steps(4 + 4 * utxo.len() as u64);
    ctx.validated();
    ctx.state_h(&(ins.iter().map(|x| (format!("{:?}", x.0), x.1)).collect::<Vec<_>>(), outs));
    Ok(())
}

pub fn fees(ctx: &Ctx) {
    let amounts: Vec<u64> = vec![0, 1, 2, M - 1, M, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX];
    let few: Vec<u64> = vec![0, 1, M, 1 << 63, u64::MAX - 1, u64::MAX];
    fn tuples(v: &[u64], n: usize) -> Vec<Vec<u64>> {
        (0..n).fold(vec![vec![]], |acc, _| acc.iter().flat_map(|t| v.iter().map(move |x| [t.clone(), vec![*x]].concat())).collect())
    }
    let max = if ctx.thorough { 3 } else { 2 };
    ctx.bound("amounts", format!("{} boundary values, up to {} inputs and {} outputs; {} values for 3 of either", amounts.len(), max, max, few.len()));
    for ni in 0..=3 {
        for no in 0..=3 {
            if ni + no > if ctx.thorough { 6 } else { 4 } {
                continue;
            }
            let set = if ni + no > max { &few } else { &amounts };
            for a in tuples(set, ni) {
                // The outputs inside one case, to keep cases coarse.
                ctx.case(
                    || format!("amounts in {:?} with {} outputs", a, no),
                    |ctx| {
                        for (j, b) in tuples(set, no).iter().enumerate() {
                            let ins: Vec<_> = a.iter().enumerate().map(|(i, v)| ([Wit, Non(0), Both(1), Non(2)][(i + j) % 4], *v)).collect();
                            fee_case(ctx, &ins, b).map_err(|e| format!("outputs {:?}: {}", b, e))?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // Every combination of funding forms.
    let forms = [Wit, Non(0), Non(1), Non(5), Both(0), Both(2), Missing, Beyond(0), Beyond(1), Beyond(u32::MAX)];
    let n = if ctx.thorough { 4 } else { 3 };
    ctx.bound("funding forms", format!("{} forms, every combination on 1 to {} inputs", forms.len(), n));
    for k in 1..=n {
        for c in 0..forms.len().pow(k as u32) {
            let fs: Vec<Fund> = (0..k).map(|j| forms[c / forms.len().pow(j as u32) % forms.len()]).collect();
            ctx.case(
                || format!("funding {:?}", fs),
                |ctx| {
                    let ins: Vec<_> = fs.iter().enumerate().map(|(i, f)| (*f, 1000u64 << i)).collect();
                    fee_case(ctx, &ins, &[600])?;
                    fee_case(ctx, &ins, &[1000, 7, 0])
                },
            );
        }
    }
    // Outputs far down a transaction, near misses of small ones, long transactions.
    let far = [Non(255), Non(256), Non(257), Non(300), Both(256), Non(65_536), Beyond(253), Beyond(254), Beyond(255), Beyond(65_533), Beyond(65_534), Wit];
    for a in far {
        for b in far {
            ctx.case(|| format!("far outputs {:?} {:?}", a, b), |ctx| fee_case(ctx, &[(a, 5000), (b, 800)], &[600]));
        }
    }
    for at in [0usize, 127, 252, 253, 254, 255, 256, 257, 299] {
        for f in [Wit, Non(3), Both(256), Missing, Beyond(0)] {
            ctx.case(
                || format!("300 inputs, {:?} at {}", f, at),
                |ctx| {
                    let mut ins: Vec<_> = (0..300u64).map(|i| (if i % 2 == 0 { Wit } else { Non(0) }, 1 << (i % 40))).collect();
                    ins[at].0 = f;
                    let outs: Vec<u64> = (0..257).map(|i| 1000 + i).collect();
                    fee_case(ctx, &ins, &outs)
                },
            );
        }
    }
    ctx.bound("other fields", "every other field value of the table on one of two inputs and outputs");
    for (name, by) in others(
        ctx.thorough,
        |k, t| k == K::I && t < 2,
        |k, t| k == K::I && (t < 2 || t == 0x0e || t == 0x0f) || k == K::O && t == 3,
    ) {
        ctx.case(
            || format!("fee beside {}", name),
            |ctx| {
                for (a, b) in [(Wit, Non(1)), (Non(2), Both(0)), (Missing, Wit), (Non(1), Missing), (Beyond(0), Wit)] {
                    fee_case_by(ctx, &[(a, 3000), (b, 900)], &[700, 1], &by)?;
                    fee_case_by(ctx, &[(a, 300), (b, 900)], &[700, 900], &by)?;
                }
                Ok(())
            },
        );
    }
}

/// Every other field value of both versions, by name.
fn others(rare: bool, v0: impl Fn(K, u8) -> bool, v2: impl Fn(K, u8) -> bool) -> Vec<(String, By)> {
    let a = bystanders::<v0::Psbt>(rare, 2, 2, |a, _| v0(a.k, a.kv.t));
    let b = bystanders::<v2::Psbt>(rare, 2, 2, |a, _| v2(a.k, a.kv.t));
    a.into_iter()
        .map(|(n, b)| (format!("V0 {}", n), By { v0: vec![b], v2: vec![] }))
        .chain(b.into_iter().map(|(n, b)| (format!("V2 {}", n), By { v0: vec![], v2: vec![b] })))
        .collect()
}

// ---------------------------------------------------------------- F02

fn cs_len(n: usize) -> u64 { cs(n as u64).len() as u64 }
/// Weight of a transaction with at least one input, from BIP-141.
fn weight(tx: &Transaction) -> u64 {
    let base: u64 = 4
        + cs_len(tx.input.len())
        + tx.input.iter().map(|i| 36 + cs_len(i.script_sig.len()) + i.script_sig.len() as u64 + 4).sum::<u64>()
        + cs_len(tx.output.len())
        + tx.output.iter().map(|o| 8 + cs_len(o.script_pubkey.len()) + o.script_pubkey.len() as u64).sum::<u64>()
        + 4;
    let wit: u64 = if tx.input.iter().all(|i| i.witness.is_empty()) {
        0
    } else {
        2 + tx.input.iter().map(|i| cs_len(i.witness.len()) + i.witness.iter().map(|e| cs_len(e.len()) + e.len() as u64).sum::<u64>()).sum::<u64>()
    };
    base * 4 + wit
}

/// (scriptSig length, witness element lengths)
type Fin = (usize, Vec<usize>);
fn fin_script(n: usize, i: usize) -> ScriptBuf { ScriptBuf::from_bytes(vec![0x51 + (i % 9) as u8; n]) }
fn fin_witness(e: &[usize], i: usize) -> Witness {
    Witness::from_slice(&e.iter().map(|n| vec![(i % 9) as u8 + 1; *n]).collect::<Vec<_>>())
}

/// Both extractions of one finalised PSBT against every limit.
fn limits(ctx: &Ctx, fins: &[Fin], fund: &[Fund], fee: i64, outs: &[u64], lims: &[u64], by: &By) -> Res {
    let total: i128 = outs.iter().map(|x| *x as i128).sum::<i128>() + fee as i128;
    let n = fins.len() as i128;
    let ins: Vec<_> = fund.iter().enumerate().map(|(i, f)| (*f, (if i == 0 { total - (n - 1) * 5 } else { 5 }) as u64)).collect();
    let Pair { mut p0, mut p2, utxo } = make(&ins, outs);
    bystand(&mut p0, &by.v0);
    bystand(&mut p2, &by.v2);
    let mut tx = p0.unsigned_tx.clone();
    for (i, (s, w)) in fins.iter().enumerate() {
        let (s, w) = (fin_script(*s, i), fin_witness(w, i));
        p0.inputs[i].final_script_sig = Some(s.clone()).filter(|s| !s.is_empty());
        p0.inputs[i].final_script_witness = Some(w.clone()).filter(|w| !w.is_empty());
        p2.inputs[i].final_script_sig = Some(s.clone());
        p2.inputs[i].final_script_witness = Some(w.clone());
        tx.input[i].script_sig = s;
        tx.input[i].witness = w;
    }
    ctx.state(&p2.serialize());
    let missing = utxo.iter().any(|u| u.is_none());
    let rate = (fee.max(0) as u128 * 1000 / weight(&tx) as u128) as u64;
    let ex = v2::Extractor::new(p2.clone()).map_err(|e| format!("extractor refuses: {:?}", e))?;
    match ex.extract_tx_unchecked_fee_rate() {
        Ok(t) if t == tx => {}
        r => return Err(format!("v2 unchecked: {:?}, expected {:?}", r, tx)),
    }
    if p0.clone().extract_tx_unchecked_fee_rate() != tx {
        return Err(format!("v0 unchecked: {:?}, expected {:?}", p0.extract_tx_unchecked_fee_rate(), tx));
    }
    let dflt = 25_000 * 250;
    let mut todo: Vec<(Option<u64>, usize)> = lims.iter().map(|l| (Some(*l), 0)).collect();
    todo.extend([(None, 0), (None, 1)]);
    for (l, which) in todo {
        let lim = l.unwrap_or(dflt);
        let fr = FeeRate::from_sat_per_kwu(lim);
        let r2 = match (l, which) {
            (Some(_), _) => ex.extract_tx_with_fee_rate_limit(fr),
            (None, 0) => ex.extract_tx(),
            _ => ex.extract_tx_fee_rate_limit(),
        };
        let r0 = match (l, which) {
            (Some(_), _) => p0.clone().extract_tx_with_fee_rate_limit(fr),
            (None, 0) => p0.clone().extract_tx(),
            _ => p0.clone().extract_tx_fee_rate_limit(),
        };
        ctx.steps(2);
        ctx.validated();
        use v0::bitcoin::ExtractTxError as E0;
        use v2::ExtractTxFeeRateError as E2;
        let ctxt = || format!("fee {} weight {} rate {} limit {:?}", fee, weight(&tx), rate, l);
        if let Err(e) = &r2 {
            ctx.err(e)?;
        }
        if let Err(e) = &r0 {
            ctx.err(e)?;
        }
        if missing || fee < 0 {
            ctx.outcome(if missing { "missing UTXO" } else { "outputs exceed inputs" });
            if r2.is_ok() || matches!(r2, Err(E2::FeeTooHigh { .. })) {
                return Err(format!("v2 {}: {:?}", ctxt(), r2));
            }
            let good = match &r0 {
                Err(E0::MissingInputValue { tx: t }) => missing && *t == tx,
                Err(E0::SendingTooMuch { psbt }) => !missing && *psbt == p0,
                _ => false,
            };
            if !good {
                return Err(format!("v0 {}: {:?}", ctxt(), r0));
            }
        } else if rate > lim {
            ctx.outcome("above the limit");
            match &r2 {
                Err(E2::FeeTooHigh { fee, max, .. }) if fee.to_sat_per_kwu() == rate && max.to_sat_per_kwu() == lim => {}
                r => return Err(format!("v2 {}: {:?}", ctxt(), r)),
            }
            match &r0 {
                Err(E0::AbsurdFeeRate { fee_rate, tx: t, .. }) if fee_rate.to_sat_per_kwu() == rate && *t == tx => {}
                r => return Err(format!("v0 {}: {:?}", ctxt(), r)),
            }
        } else {
            ctx.outcome("within the limit");
            match &r2 {
                Ok(t) if *t == tx => {}
                r => return Err(format!("v2 {}: {:?}", ctxt(), r)),
            }
            match &r0 {
                Ok(t) if *t == tx => {}
                r => return Err(format!("v0 {}: {:?}", ctxt(), r)),
            }
        }
    }
    Ok(())
}

pub fn extraction(ctx: &Ctx) {
    if v2::Extractor::DEFAULT_MAX_FEE_RATE != FeeRate::from_sat_per_vb(25_000).unwrap() || v0::Psbt::DEFAULT_MAX_FEE_RATE != FeeRate::from_sat_per_vb(25_000).unwrap() {
        ctx.case(|| "default limit".into(), |_| Err("is not 25000 sat/vB".into()));
    }
    let mut shapes: Vec<Fin> = vec![(0, vec![]), (107, vec![]), (0, vec![72, 33]), (23, vec![71, 33]), (0, vec![64]), (0, vec![0, 72, 71, 105]), (252, vec![]), (253, vec![252, 253])];
    if ctx.thorough {
        shapes.extend([(1, vec![]), (0, vec![0]), (0, vec![65, 34, 65]), (65_535, vec![]), (0, vec![65_536]), (9_000, vec![1; 300])]);
    }
    // Shapes of one, two and (thorough) three inputs.
    let mut sets: Vec<Vec<Fin>> = shapes.iter().map(|s| vec![s.clone()]).collect();
    for a in &shapes {
        for b in &shapes {
            sets.push(vec![a.clone(), b.clone()]);
        }
    }
    if ctx.thorough {
        for a in &shapes[..6] {
            for b in &shapes[..6] {
                for c in &shapes[..6] {
                    sets.push(vec![a.clone(), b.clone(), c.clone()]);
                }
            }
        }
    }
    let rates: Vec<u64> = if ctx.thorough { vec![0, 1, 2, 249, 250, 251, 1000, 999_999, 6_249_999, 6_250_000, 6_250_001, 50_000_000] } else { vec![0, 1, 250, 6_250_000] };
    ctx.bound("extraction", format!("{} sets of final scripts and witnesses on 1 to {} inputs; fees within 2 sat of {} rates; limits within 1 of the actual rate, 0, the maximum, and the default", sets.len(), if ctx.thorough { 3 } else { 2 }, rates.len()));
    for (i, fins) in sets.iter().enumerate() {
        for (j, outs) in [vec![1000u64], vec![0, 546], vec![]].iter().enumerate() {
            if j > 0 && i % 3 != 0 && !ctx.thorough {
                continue;
            }
            ctx.case(
                || format!("limits of {:?} paying {:?}", fins, outs),
                |ctx| {
                    let fund: Vec<Fund> = (0..fins.len()).map(|k| [Wit, Non(1), Both(0)][(i + k) % 3]).collect();
                    // The weight does not depend on amounts.
                    let w = {
                        let mut tx = make(&fund.iter().map(|f| (*f, 5)).collect::<Vec<_>>(), outs).p0.unsigned_tx;
                        for (k, (s, e)) in fins.iter().enumerate() {
                            tx.input[k].script_sig = fin_script(*s, k);
                            tx.input[k].witness = fin_witness(e, k);
                        }
                        weight(&tx)
                    };
                    let lowest = ((fins.len() as i64 - 1) * 5 - outs.iter().sum::<u64>() as i64).max(-1200);
                    let mut fees = vec![M as i64 - outs.iter().sum::<u64>() as i64, 1_000_000, -1, -999];
                    for r in &rates {
                        // The lowest fee whose rate rounds down to `r`.
                        let f = ((*r as u128 * w as u128 + 999) / 1000) as i64;
                        fees.extend([f - 2, f - 1, f, f + 1, f + 2]);
                    }
                    fees.retain(|f| *f >= lowest);
                    fees.sort();
                    fees.dedup();
                    for f in fees {
                        let r = (f.max(0) as u128 * 1000 / w as u128) as u64;
                        let mut lims = vec![0, r.saturating_sub(1), r, r + 1, u64::MAX];
                        lims.dedup();
                        limits(ctx, fins, &fund, f, outs, &lims, &By::default())?;
                    }
                    // A missing UTXO on each input in turn, whatever the fee.
                    for k in 0..fins.len() {
                        for m in [Missing, Beyond(0), Beyond(u32::MAX)] {
                            let mut fu = fund.clone();
                            fu[k] = m;
                            limits(ctx, fins, &fu, 1000, outs, &[0, 1, u64::MAX], &By::default())?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // Long transactions: the counts take three bytes from 253 on.
    for n in [1usize, 252, 253, 254, 300] {
        for n_out in [1usize, 252, 253, 300] {
            for w in 0..3 {
                ctx.case(
                    || format!("{} inputs, {} outputs, shape {}", n, n_out, w),
                    |ctx| {
                        let fins: Vec<Fin> = (0..n).map(|i| if (w == 0) == (i % 7 == w) { (0, vec![72, 33]) } else { (107, vec![]) }).collect();
                        let outs = vec![2000; n_out];
                        let fund = vec![Wit; n];
                        for fee in [0, 1_000, 123_456_789] {
                            let mut tx = make(&vec![(Wit, 5); n], &outs).p0.unsigned_tx;
                            for (k, (s, e)) in fins.iter().enumerate() {
                                tx.input[k].script_sig = fin_script(*s, k % 9);
                                tx.input[k].witness = fin_witness(e, k % 9);
                            }
                            let r = (fee as u128 * 1000 / weight(&tx) as u128) as u64;
                            limits(ctx, &fins, &fund, fee, &outs, &[r.saturating_sub(1), r, r + 1], &By::default())?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // Other fields.
    ctx.bound("other fields", "every other field value of the table on one of two inputs and outputs");
    for (name, by) in others(
        ctx.thorough,
        |k, t| k == K::I && (t < 2 || t == 7 || t == 8),
        |k, t| match k {
            K::G => matches!(t, 2 | 3),
            K::I => matches!(t, 0 | 1 | 7 | 8 | 0x0e..=0x12),
            K::O => matches!(t, 3 | 4),
        },
    ) {
        ctx.case(
            || format!("limits beside {}", name),
            |ctx| {
                let fins = [(107, vec![]), (0, vec![72, 33])];
                for (fund, fee) in [([Wit, Non(1)], 1_000), ([Both(0), Wit], 6_000_000), ([Wit, Wit], -1), ([Wit, Missing], 10)] {
                    limits(ctx, &fins, &fund, fee, &[700, 1], &[0, 1_000, 6_250_000], &by)?;
                }
                Ok(())
            },
        );
    }
    // Entry: presence of the two final fields on up to three inputs, and the lock-time rule.
    for n in 0..=3usize {
        for mask in 0u32..1 << (2 * n) {
            for lock in 0..3 {
                ctx.case(
                    || format!("entry with {} inputs, fields {:06b}, lock times {}", n, mask, lock),
                    |ctx| {
                        let (mut p, mut w) = <v2::Psbt as PsbtV>::base(n, 1);
                        for i in 0..n {
                            if mask >> (2 * i) & 1 == 1 {
                                p.inputs[i].final_script_sig = Some(fin_script([0, 5, 1][i], i));
                            }
                            if mask >> (2 * i + 1) & 1 == 1 {
                                p.inputs[i].final_script_witness = Some(fin_witness(&[3, 4][..[2, 0, 1][i]], i));
                            }
                            p.inputs[i].witness_utxo = Some(txo(1_000_000, p2wpkh(3)));
                            // Other data must not stand in for the final fields.
                            p.inputs[i].partial_sigs.insert(pk(5), ecdsa_sig(5, EcdsaSighashType::All));
                            p.inputs[i].tap_key_sig = Some(tap_sig(5, TapSighashType::All));
                            if lock == 1 || lock == 2 && i == 0 {
                                p.inputs[i].min_height = Some(absolute::Height::from_consensus(600 + i as u32).unwrap());
                                w.i[i].push(kv(0x12, [], (600 + i as u32).to_le_bytes()));
                            }
                            if lock == 2 && i > 0 {
                                p.inputs[i].min_time = Some(absolute::Time::from_consensus(600_000_000).unwrap());
                                w.i[i].push(kv(0x11, [], 600_000_000u32.to_le_bytes()));
                            }
                        }
                        let all = mask == (1 << (2 * n)) - 1;
                        let want = all && lock_of(&w).is_some();
                        let fin = (0..n).all(|i| mask >> (2 * i) & 3 == 3);
                        if p.is_finalized() != fin || (0..n).any(|i| p.inputs[i].is_finalized() != (mask >> (2 * i) & 3 == 3)) {
                            return Err("is_finalized disagrees with the fields".into());
                        }
                        ctx.steps(2);
                        ctx.validated();
                        ctx.state(&p.serialize());
                        match v2::Extractor::new(p.clone()) {
                            Ok(_) if !want => Err("extractor accepts".into()),
                            Err(e) if want => Err(format!("extractor refuses: {:?}", e)),
                            Err(e) => {
                                ctx.outcome("entry refused");
                                ctx.err(&e)
                            }
                            Ok(x) => {
                                ctx.outcome("entry granted");
                                let mut tx = tx_of(&w).unwrap();
                                for i in 0..n {
                                    tx.input[i].script_sig = fin_script([0, 5, 1][i], i);
                                    tx.input[i].witness = fin_witness(&[3, 4][..[2, 0, 1][i]], i);
                                }
                                if Some(x.id()) != id_of(&w) {
                                    return Err("extractor id".into());
                                }
                                match x.extract_tx_unchecked_fee_rate() {
                                    Ok(t) if t == tx => Ok(()),
                                    r => Err(format!("{:?}, expected {:?}", r, tx)),
                                }
                            }
                        }
                    },
                );
            }
        }
    }
    // Versions, sequences, lock times and scripts of the extracted transaction.
    for ver in [i32::MIN, -1, 0, 1, 2, 3, i32::MAX] {
        for seq in [None, Some(0u32), Some(1), Some(0xffff_fffd), Some(0xffff_fffe), Some(0xffff_ffff)] {
            for lock in [None, Some(0u32), Some(1), Some(499_999_999), Some(500_000_000), Some(u32::MAX)] {
                ctx.case(
                    || format!("transaction version {} sequence {:?} lock time {:?}", ver, seq, lock),
                    |ctx| {
                        let (mut p, mut w) = <v2::Psbt as PsbtV>::base(2, 2);
                        p.global.tx_version = transaction::Version(ver);
                        w.g.iter_mut().find(|x| x.t == 2).unwrap().v = ver.to_le_bytes().to_vec();
                        if let Some(l) = lock {
                            p.global.fallback_lock_time = Some(absolute::LockTime::from_consensus(l));
                            w.g.push(kv(3, [], l.to_le_bytes()));
                        }
                        if let Some(s) = seq {
                            p.inputs[0].sequence = Some(Sequence(s));
                            w.i[0].push(kv(0x10, [], s.to_le_bytes()));
                        }
                        for i in 0..2 {
                            p.inputs[i].final_script_sig = Some(fin_script(i, i));
                            p.inputs[i].final_script_witness = Some(fin_witness(&[i, 2], i));
                            p.inputs[i].witness_utxo = Some(txo(60_000, p2wpkh(3)));
                        }
                        let mut tx = tx_of(&w).unwrap();
                        for i in 0..2 {
                            tx.input[i].script_sig = fin_script(i, i);
                            tx.input[i].witness = fin_witness(&[i, 2], i);
                        }
                        let x = v2::Extractor::new(p).map_err(|e| format!("{:?}", e))?;
                        ctx.steps(2);
                        ctx.validated();
                        for r in [x.extract_tx().ok(), x.extract_tx_unchecked_fee_rate().ok()] {
                            if r.as_ref() != Some(&tx) {
                                return Err(format!("{:?}, expected {:?}", r, tx));
                            }
                        }
                        let mut t0 = tx.clone();
                        for i in &mut t0.input {
                            i.script_sig = ScriptBuf::new();
                            i.witness = Witness::new();
                        }
                        let (mut p0, _) = v0_from(t0);
                        for i in 0..2 {
                            p0.inputs[i].final_script_sig = Some(fin_script(i, i));
                            p0.inputs[i].final_script_witness = Some(fin_witness(&[i, 2], i));
                            p0.inputs[i].witness_utxo = Some(txo(60_000, p2wpkh(3)));
                        }
                        match p0.extract_tx() {
                            Ok(t) if t == tx => Ok(()),
                            r => Err(format!("v0 {:?}, expected {:?}", r, tx)),
                        }
                    },
                );
            }
        }
    }
}
