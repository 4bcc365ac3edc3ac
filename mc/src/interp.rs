//! A consensus script interpreter and the three signature hash algorithms, written from the BIPs and Bitcoin
//! Core's rules. Independent of the crate under test and of rust-bitcoin's sighash code and rust-miniscript.
//!
//! Covers P2SH, segwit v0, taproot key and script path, BIP-65, BIP-66, BIP-68/112, BIP-147, tapscript rules.
use crate::util::*;
use bitcoin::hashes::{hash160, ripemd160, sha1, sha256, sha256d, Hash};
use bitcoin::secp256k1::{self, Message};
use bitcoin::*;

fn dsha(b: &[u8]) -> [u8; 32] { sha256d::Hash::hash(b).to_byte_array() }
fn ser_out(o: &TxOut) -> Vec<u8> {
    [&o.value.to_sat().to_le_bytes()[..], &cs(o.script_pubkey.len() as u64), o.script_pubkey.as_bytes()].concat()
}
fn ser_op(i: &TxIn) -> Vec<u8> {
    [&i.previous_output.txid.to_byte_array()[..], &i.previous_output.vout.to_le_bytes()].concat()
}
fn ser_str(b: &[u8]) -> Vec<u8> { [&cs(b.len() as u64), b].concat() }

pub fn sighash_legacy(tx: &Transaction, ix: usize, code: &Script, ty: u32) -> [u8; 32] {
    let base = ty & 0x1f;
    let acp = ty & 0x80 != 0;
    if base == 3 && ix >= tx.output.len() {
        let mut one = [0; 32];
        one[0] = 1;
        return one;
    }
    let mut b = tx.version.0.to_le_bytes().to_vec();
    let ins: Vec<usize> = if acp { vec![ix] } else { (0..tx.input.len()).collect() };
    b.extend(cs(ins.len() as u64));
    for i in ins {
        b.extend(ser_op(&tx.input[i]));
        b.extend(if i == ix { ser_str(code.as_bytes()) } else { vec![0] });
        let seq = if i != ix && (base == 2 || base == 3) { 0 } else { tx.input[i].sequence.0 };
        b.extend(seq.to_le_bytes());
    }
    match base {
        2 => b.push(0),
        3 => {
            b.extend(cs(ix as u64 + 1));
            for _ in 0..ix {
                b.extend([0xff; 8]);
                b.push(0);
            }
            b.extend(ser_out(&tx.output[ix]));
        }
        _ => {
            b.extend(cs(tx.output.len() as u64));
            for o in &tx.output {
                b.extend(ser_out(o));
            }
        }
    }
    b.extend(tx.lock_time.to_consensus_u32().to_le_bytes());
    b.extend(ty.to_le_bytes());
    dsha(&b)
}

pub fn sighash_v0(tx: &Transaction, ix: usize, code: &Script, value: u64, ty: u32) -> [u8; 32] {
    let base = ty & 0x1f;
    let acp = ty & 0x80 != 0;
    let mut b = tx.version.0.to_le_bytes().to_vec();
    let zero = [0u8; 32];
    b.extend(if acp { zero } else { dsha(&tx.input.iter().flat_map(ser_op).collect::<Vec<_>>()) });
    b.extend(if acp || base == 2 || base == 3 { zero } else { dsha(&tx.input.iter().flat_map(|i| i.sequence.0.to_le_bytes()).collect::<Vec<_>>()) });
    b.extend(ser_op(&tx.input[ix]));
    b.extend(ser_str(code.as_bytes()));
    b.extend(value.to_le_bytes());
    b.extend(tx.input[ix].sequence.0.to_le_bytes());
    b.extend(match base {
        2 => zero,
        3 if ix < tx.output.len() => dsha(&ser_out(&tx.output[ix])),
        3 => zero,
        _ => dsha(&tx.output.iter().flat_map(ser_out).collect::<Vec<_>>()),
    });
    b.extend(tx.lock_time.to_consensus_u32().to_le_bytes());
    b.extend(ty.to_le_bytes());
    dsha(&b)
}

fn tagged(tag: &str, b: &[u8]) -> [u8; 32] {
    let t = sha(tag.as_bytes());
    sha(&[&t[..], &t, b].concat())
}
/// `leaf`: the leaf hash of a script path spend. `None` when the type is not allowed.
pub fn sighash_tap(tx: &Transaction, ix: usize, prev: &[TxOut], leaf: Option<[u8; 32]>, ty: u8) -> Option<[u8; 32]> {
    if !matches!(ty, 0..=3 | 0x81..=0x83) || prev.len() != tx.input.len() {
        return None;
    }
    let base = ty & 3;
    let acp = ty & 0x80 != 0;
    let mut b = vec![0u8, ty];
    b.extend(tx.version.0.to_le_bytes());
    b.extend(tx.lock_time.to_consensus_u32().to_le_bytes());
    if !acp {
        b.extend(sha(&tx.input.iter().flat_map(ser_op).collect::<Vec<_>>()));
        b.extend(sha(&prev.iter().flat_map(|o| o.value.to_sat().to_le_bytes()).collect::<Vec<_>>()));
        b.extend(sha(&prev.iter().flat_map(|o| ser_str(o.script_pubkey.as_bytes())).collect::<Vec<_>>()));
        b.extend(sha(&tx.input.iter().flat_map(|i| i.sequence.0.to_le_bytes()).collect::<Vec<_>>()));
    }
    if base < 2 {
        b.extend(sha(&tx.output.iter().flat_map(ser_out).collect::<Vec<_>>()));
    }
    b.push(if leaf.is_some() { 2 } else { 0 });
    if acp {
        b.extend(ser_op(&tx.input[ix]));
        b.extend(ser_out(&prev[ix]));
        b.extend(tx.input[ix].sequence.0.to_le_bytes());
    } else {
        b.extend((ix as u32).to_le_bytes());
    }
    if base == 3 {
        b.extend(sha(&ser_out(tx.output.get(ix)?)));
    }
    if let Some(l) = leaf {
        b.extend(l);
        b.push(0);
        b.extend(0xffff_ffffu32.to_le_bytes());
    }
    Some(tagged("TapSighash", &b))
}
pub fn tap_leaf(script: &[u8], ver: u8) -> [u8; 32] { tagged("TapLeaf", &[&[ver][..], &ser_str(script)].concat()) }

/// BIP-66.
fn der_ok(s: &[u8]) -> bool {
    let n = s.len();
    if !(9..=73).contains(&n) || s[0] != 0x30 || s[1] as usize != n - 3 {
        return false;
    }
    let lr = s[3] as usize;
    if 5 + lr >= n {
        return false;
    }
    let ls = s[5 + lr] as usize;
    if lr + ls + 7 != n || s[2] != 2 || lr == 0 || s[4] & 0x80 != 0 || (lr > 1 && s[4] == 0 && s[5] & 0x80 == 0) {
        return false;
    }
    !(s[lr + 4] != 2 || ls == 0 || s[lr + 6] & 0x80 != 0 || (ls > 1 && s[lr + 6] == 0 && s[lr + 7] & 0x80 == 0))
}

#[derive(Clone, Copy, PartialEq)]
enum Mode { Base, V0, Tap }

struct Vm<'a> {
    tx: &'a Transaction,
    ix: usize,
    prev: &'a [TxOut],
    mode: Mode,
    leaf: [u8; 32],
    budget: i64,
}
type Stack = Vec<Vec<u8>>;
type E = &'static str;

fn truthy(v: &[u8]) -> bool {
    v.iter().enumerate().any(|(i, b)| *b != 0 && !(i + 1 == v.len() && *b == 0x80))
}
fn num(v: &[u8], max: usize) -> Result<i64, E> {
    if v.len() > max {
        return Err("number too long");
    }
    let mut n: i64 = 0;
    for (i, b) in v.iter().enumerate() {
        n |= (*b as i64) << (8 * i);
    }
    if let Some(l) = v.last() {
        if l & 0x80 != 0 {
            n &= !(0x80i64 << (8 * (v.len() - 1)));
            n = -n;
        }
    }
    Ok(n)
}
fn enc(n: i64) -> Vec<u8> {
    let mut a = n.unsigned_abs();
    let mut v = vec![];
    while a > 0 {
        v.push(a as u8);
        a >>= 8;
    }
    if let Some(l) = v.last_mut() {
        if *l & 0x80 != 0 {
            v.push(if n < 0 { 0x80 } else { 0 });
        } else if n < 0 {
            *l |= 0x80;
        }
    }
    v
}
/// Consensus removes a signature from the legacy script code; no script here contains one.
fn contains(code: &[u8], sig: &[u8]) -> bool { !sig.is_empty() && code.windows(sig.len()).any(|w| w == sig) }

impl Vm<'_> {
    fn ecdsa(&self, sig: &[u8], key: &[u8], code: &Script) -> Result<bool, E> {
        if sig.is_empty() {
            return Ok(false);
        }
        if !der_ok(sig) {
            return Err("signature encoding");
        }
        if self.mode == Mode::Base && contains(code.as_bytes(), sig) {
            return Err("signature inside the script");
        }
        let (ty, der) = sig.split_last().unwrap();
        let Ok(pk) = secp256k1::PublicKey::from_slice(key) else { return Ok(false) };
        let Ok(mut s) = secp256k1::ecdsa::Signature::from_der_lax(der) else { return Ok(false) };
        s.normalize_s();
        let m = match self.mode {
            Mode::Base => sighash_legacy(self.tx, self.ix, code, *ty as u32),
            _ => sighash_v0(self.tx, self.ix, code, self.prev[self.ix].value.to_sat(), *ty as u32),
        };
        Ok(secp().verify_ecdsa(&Message::from_digest(m), &s, &pk).is_ok())
    }
    fn schnorr(&self, sig: &[u8], key: &[u8; 32], leaf: Option<[u8; 32]>) -> Result<bool, E> {
        let ty = match sig.len() {
            64 => 0,
            65 if sig[64] != 0 => sig[64],
            _ => return Err("schnorr signature size"),
        };
        let Ok(pk) = secp256k1::XOnlyPublicKey::from_slice(key) else { return Err("x-only key") };
        let m = sighash_tap(self.tx, self.ix, self.prev, leaf, ty).ok_or("taproot sighash type")?;
        let s = secp256k1::schnorr::Signature::from_slice(&sig[..64]).map_err(|_| "schnorr signature")?;
        if secp().verify_schnorr(&s, &Message::from_digest(m), &pk).is_ok() { Ok(true) } else { Err("schnorr verification") }
    }
    fn tap_check(&mut self, sig: &[u8], key: &[u8]) -> Result<bool, E> {
        if !sig.is_empty() {
            self.budget -= 50;
            if self.budget < 0 {
                return Err("signature budget");
            }
        }
        match key.len() {
            0 => Err("empty key"),
            32 if sig.is_empty() => Ok(false),
            32 => self.schnorr(sig, key.try_into().unwrap(), Some(self.leaf)),
            _ => Ok(!sig.is_empty()),
        }
    }
    fn cltv(&self, n: i64) -> Result<(), E> {
        let lock = self.tx.lock_time.to_consensus_u32() as i64;
        const T: i64 = 500_000_000;
        if n < 0 || (n < T) != (lock < T) || n > lock || self.tx.input[self.ix].sequence.0 == 0xffff_ffff {
            return Err("CHECKLOCKTIMEVERIFY");
        }
        Ok(())
    }
    fn csv(&self, n: i64) -> Result<(), E> {
        if n < 0 {
            return Err("CHECKSEQUENCEVERIFY");
        }
        if n & (1 << 31) != 0 {
            return Ok(());
        }
        let seq = self.tx.input[self.ix].sequence.0 as i64;
        if (self.tx.version.0 as u32) < 2 || seq & (1 << 31) != 0 {
            return Err("CHECKSEQUENCEVERIFY");
        }
        const F: i64 = 1 << 22;
        let m = F | 0xffff;
        if (n & F) != (seq & F) || (n & m & 0xffff) > (seq & m & 0xffff) {
            return Err("CHECKSEQUENCEVERIFY");
        }
        Ok(())
    }

    fn run(&mut self, script: &Script, st: &mut Stack) -> Result<(), E> {
        let b = script.as_bytes();
        if self.mode != Mode::Tap && b.len() > 10_000 {
            return Err("script size");
        }
        let mut pc = 0;
        let mut alt: Stack = vec![];
        let mut cond: Vec<bool> = vec![];
        let mut ops = 0;
        let mut last_sep = 0;
        macro_rules! pop { () => { st.pop().ok_or("stack underflow")? } }
        macro_rules! need { ($n:expr) => { if st.len() < $n { return Err("stack underflow") } } }
        while pc < b.len() {
            let op = b[pc];
            pc += 1;
            let exec = cond.iter().all(|c| *c);
            // Pushes.
            if op <= 0x4e {
                let (n, skip) = match op {
                    0x4c => (*b.get(pc).ok_or("push")? as usize, 1),
                    0x4d => (u16::from_le_bytes(b.get(pc..pc + 2).ok_or("push")?.try_into().unwrap()) as usize, 2),
                    0x4e => (u32::from_le_bytes(b.get(pc..pc + 4).ok_or("push")?.try_into().unwrap()) as usize, 4),
                    n => (n as usize, 0),
                };
                pc += skip;
                let d = b.get(pc..pc + n).ok_or("push")?;
                pc += n;
                if n > 520 {
                    return Err("push size");
                }
                if exec {
                    st.push(d.to_vec());
                }
                continue;
            }
            if self.mode != Mode::Tap && op > 0x60 {
                ops += 1;
                if ops > 201 {
                    return Err("op count");
                }
            }
            if !exec && !(0x63..=0x68).contains(&op) {
                continue;
            }
            match op {
                0x4f => st.push(enc(-1)),
                0x51..=0x60 => st.push(vec![op - 0x50]),
                0x61 => {}
                0x63 | 0x64 => {
                    let mut v = false;
                    if exec {
                        let t = pop!();
                        if self.mode == Mode::Tap && !(t.is_empty() || t == [1]) {
                            return Err("minimal if");
                        }
                        v = truthy(&t) == (op == 0x63);
                    }
                    cond.push(v);
                }
                0x67 => {
                    let c = cond.last_mut().ok_or("ELSE")?;
                    *c = !*c;
                }
                0x68 => {
                    cond.pop().ok_or("ENDIF")?;
                }
                0x69 => {
                    if !truthy(&pop!()) {
                        return Err("VERIFY");
                    }
                }
                0x6a => return Err("RETURN"),
                0x6b => alt.push(pop!()),
                0x6c => st.push(alt.pop().ok_or("alt stack")?),
                0x6d => {
                    pop!();
                    pop!();
                }
                0x6e => {
                    need!(2);
                    let n = st.len();
                    st.push(st[n - 2].clone());
                    st.push(st[n - 1].clone());
                }
                0x73 => {
                    need!(1);
                    let t = st.last().unwrap().clone();
                    if truthy(&t) {
                        st.push(t);
                    }
                }
                0x74 => st.push(enc(st.len() as i64)),
                0x75 => {
                    pop!();
                }
                0x76 => {
                    need!(1);
                    st.push(st.last().unwrap().clone());
                }
                0x77 => {
                    need!(2);
                    let n = st.len();
                    st.remove(n - 2);
                }
                0x78 => {
                    need!(2);
                    st.push(st[st.len() - 2].clone());
                }
                0x7b => {
                    need!(3);
                    let n = st.len();
                    let x = st.remove(n - 3);
                    st.push(x);
                }
                0x7c => {
                    need!(2);
                    let n = st.len();
                    st.swap(n - 1, n - 2);
                }
                0x7d => {
                    need!(2);
                    let n = st.len();
                    let x = st[n - 1].clone();
                    st.insert(n - 2, x);
                }
                0x82 => {
                    need!(1);
                    st.push(enc(st.last().unwrap().len() as i64));
                }
                0x87 | 0x88 => {
                    let (x, y) = (pop!(), pop!());
                    if op == 0x87 {
                        st.push(enc((x == y) as i64));
                    } else if x != y {
                        return Err("EQUALVERIFY");
                    }
                }
                0x8b | 0x8c | 0x8f | 0x90 | 0x91 | 0x92 => {
                    let n = num(&pop!(), 4)?;
                    st.push(enc(match op {
                        0x8b => n + 1,
                        0x8c => n - 1,
                        0x8f => -n,
                        0x90 => n.abs(),
                        0x91 => (n == 0) as i64,
                        _ => (n != 0) as i64,
                    }));
                }
                0x93 | 0x94 | 0x9a..=0xa4 => {
                    let (y, x) = (num(&pop!(), 4)?, num(&pop!(), 4)?);
                    let r = match op {
                        0x93 => x + y,
                        0x94 => x - y,
                        0x9a => (x != 0 && y != 0) as i64,
                        0x9b => (x != 0 || y != 0) as i64,
                        0x9c | 0x9d => (x == y) as i64,
                        0x9e => (x != y) as i64,
                        0x9f => (x < y) as i64,
                        0xa0 => (x > y) as i64,
                        0xa1 => (x <= y) as i64,
                        0xa2 => (x >= y) as i64,
                        0xa3 => x.min(y),
                        _ => x.max(y),
                    };
                    if op == 0x9d {
                        if r == 0 {
                            return Err("NUMEQUALVERIFY");
                        }
                    } else {
                        st.push(enc(r));
                    }
                }
                0xa6..=0xaa => {
                    let x = pop!();
                    st.push(match op {
                        0xa6 => ripemd160::Hash::hash(&x).to_byte_array().to_vec(),
                        0xa7 => sha1::Hash::hash(&x).to_byte_array().to_vec(),
                        0xa8 => sha256::Hash::hash(&x).to_byte_array().to_vec(),
                        0xa9 => hash160::Hash::hash(&x).to_byte_array().to_vec(),
                        _ => dsha(&x).to_vec(),
                    });
                }
                0xab => last_sep = pc,
                0xac | 0xad => {
                    let (key, sig) = (pop!(), pop!());
                    let ok = if self.mode == Mode::Tap {
                        self.tap_check(&sig, &key)?
                    } else {
                        self.ecdsa(&sig, &key, Script::from_bytes(&b[last_sep..]))?
                    };
                    if op == 0xac {
                        st.push(enc(ok as i64));
                    } else if !ok {
                        return Err("CHECKSIGVERIFY");
                    }
                }
                0xae | 0xaf => {
                    if self.mode == Mode::Tap {
                        return Err("CHECKMULTISIG in tapscript");
                    }
                    let n = num(&pop!(), 4)?;
                    if !(0..=20).contains(&n) {
                        return Err("multisig keys");
                    }
                    ops += n;
                    if ops > 201 {
                        return Err("op count");
                    }
                    // From the top of the stack, that is last key first.
                    let mut keys = vec![];
                    for _ in 0..n {
                        keys.push(pop!());
                    }
                    let m = num(&pop!(), 4)?;
                    if !(0..=n).contains(&m) {
                        return Err("multisig signatures");
                    }
                    let mut sigs = vec![];
                    for _ in 0..m {
                        sigs.push(pop!());
                    }
                    let dummy = pop!();
                    let (mut k, mut s) = (0, 0);
                    while s < sigs.len() && keys.len() - k >= sigs.len() - s {
                        if self.ecdsa(&sigs[s], &keys[k], Script::from_bytes(&b[last_sep..]))? {
                            s += 1;
                        }
                        k += 1;
                    }
                    if !dummy.is_empty() {
                        return Err("null dummy");
                    }
                    let ok = s == sigs.len();
                    if op == 0xae {
                        st.push(enc(ok as i64));
                    } else if !ok {
                        return Err("CHECKMULTISIGVERIFY");
                    }
                }
                0xb1 => {
                    need!(1);
                    self.cltv(num(st.last().unwrap(), 5)?)?;
                }
                0xb2 => {
                    need!(1);
                    self.csv(num(st.last().unwrap(), 5)?)?;
                }
                0xb0 | 0xb3..=0xb9 => {}
                0xba if self.mode == Mode::Tap => {
                    let (key, n, sig) = (pop!(), num(&pop!(), 4)?, pop!());
                    let ok = self.tap_check(&sig, &key)?;
                    st.push(enc(n + ok as i64));
                }
                _ => return Err("opcode"),
            }
            if st.len() + alt.len() > 1000 {
                return Err("stack size");
            }
        }
        if !cond.is_empty() {
            return Err("unbalanced IF");
        }
        Ok(())
    }
}

fn push_only(s: &Script) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let op = b[i];
        i += 1;
        if op > 0x60 {
            return false;
        }
        i += match op {
            0x4c => 1 + *b.get(i).unwrap_or(&0) as usize,
            0x4d => 2 + b.get(i..i + 2).map(|x| u16::from_le_bytes(x.try_into().unwrap()) as usize).unwrap_or(0),
            0x4e => 4 + b.get(i..i + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap()) as usize).unwrap_or(0),
            n if n < 0x4c => n as usize,
            _ => 0,
        };
    }
    true
}
fn witness_program(s: &Script) -> Option<(u8, &[u8])> {
    let b = s.as_bytes();
    if !(4..=42).contains(&b.len()) || !(b[0] == 0 || (0x51..=0x60).contains(&b[0])) || b[1] as usize != b.len() - 2 {
        return None;
    }
    Some((if b[0] == 0 { 0 } else { b[0] - 0x50 }, &b[2..]))
}
fn one_true(st: &Stack) -> Result<(), E> {
    match &st[..] {
        [x] if truthy(x) => Ok(()),
        [_] => Err("script evaluates to false"),
        _ => Err("clean stack"),
    }
}

/// Whether input `ix` of `tx`, which spends the outputs `prev`, is valid under consensus rules.
pub fn verify(tx: &Transaction, ix: usize, prev: &[TxOut]) -> Result<(), String> {
    verify_(tx, ix, prev).map_err(|e| format!("input {}: {}", ix, e))
}
fn verify_(tx: &Transaction, ix: usize, prev: &[TxOut]) -> Result<(), E> {
    if prev.len() != tx.input.len() {
        return Err("number of spent outputs");
    }
    let spk = &prev[ix].script_pubkey;
    let (sig, wit) = (&tx.input[ix].script_sig, &tx.input[ix].witness);
    let mut vm = Vm { tx, ix, prev, mode: Mode::Base, leaf: [0; 32], budget: 0 };
    let mut st = vec![];
    vm.run(sig, &mut st)?;
    let copy = st.clone();
    vm.run(spk, &mut st)?;
    if !st.last().map(|t| truthy(t)).unwrap_or(false) {
        return Err("script evaluates to false");
    }
    let mut had_witness = false;
    if let Some((v, p)) = witness_program(spk) {
        had_witness = true;
        if !sig.is_empty() {
            return Err("scriptSig of a witness input");
        }
        program(&mut vm, v, p, wit, false)?;
    }
    if spk.is_p2sh() {
        if !push_only(sig) {
            return Err("scriptSig is not push only");
        }
        let mut st = copy;
        let redeem = ScriptBuf::from_bytes(st.pop().ok_or("no redeem script")?);
        vm.run(&redeem, &mut st)?;
        if !st.last().map(|t| truthy(t)).unwrap_or(false) {
            return Err("redeem script evaluates to false");
        }
        if let Some((v, p)) = witness_program(&redeem) {
            had_witness = true;
            let push = [&[redeem.len() as u8][..], redeem.as_bytes()].concat();
            if sig.as_bytes() != &push[..] {
                return Err("scriptSig of a nested witness input");
            }
            program(&mut vm, v, p, wit, true)?;
        }
    }
    if !had_witness && !wit.is_empty() {
        return Err("unexpected witness");
    }
    Ok(())
}

fn program(vm: &mut Vm, v: u8, p: &[u8], wit: &Witness, nested: bool) -> Result<(), E> {
    let mut st: Stack = wit.to_vec();
    let small = |st: &Stack| if st.iter().any(|e| e.len() > 520) { Err("witness element size") } else { Ok(()) };
    match (v, p.len()) {
        (0, 20) => {
            if st.len() != 2 {
                return Err("P2WPKH witness");
            }
            vm.mode = Mode::V0;
            small(&st)?;
            let code = ScriptBuf::from_bytes([&[0x76, 0xa9, 0x14][..], p, &[0x88, 0xac]].concat());
            vm.run(&code, &mut st)?;
            one_true(&st)
        }
        (0, 32) => {
            let script = ScriptBuf::from_bytes(st.pop().ok_or("empty witness")?);
            if sha(script.as_bytes())[..] != *p {
                return Err("witness script hash");
            }
            vm.mode = Mode::V0;
            small(&st)?;
            vm.run(&script, &mut st)?;
            one_true(&st)
        }
        (0, _) => Err("witness program length"),
        (1, 32) if !nested => {
            if st.is_empty() {
                return Err("empty witness");
            }
            if st.len() >= 2 && st.last().unwrap().first() == Some(&0x50) {
                return Err("annex"); // Not produced by anything here.
            }
            let out: [u8; 32] = p.try_into().unwrap();
            if st.len() == 1 {
                return vm.schnorr(&st[0], &out, None).map(|_| ());
            }
            let control = st.pop().unwrap();
            let script = ScriptBuf::from_bytes(st.pop().unwrap());
            if control.len() < 33 || (control.len() - 33) % 32 != 0 || control.len() > 33 + 128 * 32 {
                return Err("control block size");
            }
            let ver = control[0] & 0xfe;
            let leaf = tap_leaf(script.as_bytes(), ver);
            let mut h = leaf;
            for e in control[33..].chunks(32) {
                h = if h[..] < *e { tagged("TapBranch", &[&h[..], e].concat()) } else { tagged("TapBranch", &[e, &h[..]].concat()) };
            }
            let tweak = tagged("TapTweak", &[&control[1..33], &h[..]].concat());
            let internal = secp256k1::XOnlyPublicKey::from_slice(&control[1..33]).map_err(|_| "internal key")?;
            let (q, parity) = internal
                .add_tweak(secp(), &secp256k1::Scalar::from_be_bytes(tweak).map_err(|_| "tweak")?)
                .map_err(|_| "tweak")?;
            if q.serialize() != out || (parity == secp256k1::Parity::Odd) != (control[0] & 1 == 1) {
                return Err("taproot commitment");
            }
            if ver != 0xc0 {
                return Ok(());
            }
            let size = consensus::serialize(wit).len() as i64;
            vm.mode = Mode::Tap;
            vm.leaf = leaf;
            vm.budget = 50 + size;
            small(&st)?;
            vm.run(&script, &mut st)?;
            one_true(&st)
        }
        _ => Ok(()),
    }
}

/// The consensus rules about lock times of the whole transaction that do not need the chain: nothing to check
/// beyond what the scripts check, so this only confirms that every input is valid.
pub fn verify_all(tx: &Transaction, prev: &[TxOut]) -> Result<(), String> {
    (0..tx.input.len()).try_for_each(|i| verify(tx, i, prev))
}
