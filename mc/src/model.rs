//! Reference model of what a PSBTv2 says, computed from its raw pairs and nothing else.
use crate::util::*;
use crate::wire::*;
use bitcoin::hashes::Hash;
use bitcoin::*;

pub fn get<'a>(m: &'a WMap, t: u8) -> Option<&'a [u8]> {
    m.iter().find(|p| p.t == t && p.kd.is_empty()).map(|p| p.v.as_slice())
}
pub fn le(b: &[u8]) -> u64 { b.iter().rev().fold(0, |a, x| a << 8 | *x as u64) }

/// BIP-370 "Determining Lock Time". `None` when the inputs conflict.
pub fn lock_rule(fallback: Option<u32>, inputs: &[(Option<u32>, Option<u32>)]) -> Option<u32> {
    let need: Vec<_> = inputs.iter().filter(|(t, h)| t.is_some() || h.is_some()).collect();
    if need.is_empty() {
        Some(fallback.unwrap_or(0))
    } else if need.iter().all(|(_, h)| h.is_some()) {
        need.iter().filter_map(|(_, h)| *h).max()
    } else if need.iter().all(|(t, _)| t.is_some()) {
        need.iter().filter_map(|(t, _)| *t).max()
    } else {
        None
    }
}
pub fn lock_of(w: &WPsbt) -> Option<u32> {
    let u = |m: &WMap, t: u8| get(m, t).map(|v| le(v) as u32);
    let ins: Vec<_> = w.i.iter().map(|m| (u(m, 0x11), u(m, 0x12))).collect();
    lock_rule(u(&w.g, 3), &ins)
}
/// The unsigned transaction a PSBTv2 describes. `None` when its lock times conflict.
pub fn tx_of(w: &WPsbt) -> Option<Transaction> {
    let lock = lock_of(w)?;
    Some(Transaction {
        version: transaction::Version(le(get(&w.g, 2).unwrap_or(&[2])) as u32 as i32),
        lock_time: absolute::LockTime::from_consensus(lock),
        input: w
            .i
            .iter()
            .map(|m| TxIn {
                previous_output: OutPoint {
                    txid: Txid::from_byte_array(get(m, 0x0e).expect("txid").try_into().expect("32 bytes")),
                    vout: le(get(m, 0x0f).expect("index")) as u32,
                },
                script_sig: ScriptBuf::new(),
                sequence: Sequence(get(m, 0x10).map(|v| le(v) as u32).unwrap_or(0xffff_ffff)),
                witness: Witness::new(),
            })
            .collect(),
        output: w
            .o
            .iter()
            .map(|m| TxOut {
                value: Amount::from_sat(le(get(m, 3).expect("amount"))),
                script_pubkey: ScriptBuf::from_bytes(get(m, 4).unwrap_or(&[]).to_vec()),
            })
            .collect(),
    })
}
/// BIP-370 unique identification.
pub fn id_of(w: &WPsbt) -> Option<Txid> {
    let mut tx = tx_of(w)?;
    for i in &mut tx.input {
        i.sequence = Sequence::ZERO;
    }
    Some(txid_of(&tx))
}
/// Double SHA-256 of the transaction without witnesses, encoded here.
pub fn txid_of(tx: &Transaction) -> Txid {
    let mut b = tx.version.0.to_le_bytes().to_vec();
    b.extend(cs(tx.input.len() as u64));
    for i in &tx.input {
        b.extend(i.previous_output.txid.to_byte_array());
        b.extend(i.previous_output.vout.to_le_bytes());
        b.extend(cs(i.script_sig.len() as u64));
        b.extend(i.script_sig.as_bytes());
        b.extend(i.sequence.0.to_le_bytes());
    }
    b.extend(cs(tx.output.len() as u64));
    for o in &tx.output {
        b.extend(o.value.to_sat().to_le_bytes());
        b.extend(cs(o.script_pubkey.len() as u64));
        b.extend(o.script_pubkey.as_bytes());
    }
    b.extend(tx.lock_time.to_consensus_u32().to_le_bytes());
    Txid::from_byte_array(sha(&sha(&b)))
}
