//! Part of F01 and F04: scripts that are not of any descriptor. Whether they are finalised is open,
//! but what is finalised is valid, the rest is left as it was, and nothing else is affected.
use crate::c_final::{plant, sorted};
use crate::model::*;
use crate::fields::*;
use crate::interp;
use crate::run::*;
use crate::spend::*;
use crate::util::*;
use crate::wire::*;
use bitcoin::hashes::Hash;
use bitcoin::taproot::{LeafVersion, TaprootBuilder};
use bitcoin::*;
use psbt_v2::v0::miniscript::PsbtExt;
use psbt_v2::v2;

/// Pieces that scripts are put together from.
fn tokens(tap: bool) -> Vec<Vec<u8>> {
    let push = |b: &[u8]| [&[b.len() as u8][..], b].concat();
    let key = |i: u32| if tap { push(&kx(i).serialize()) } else { push(&kpk(i).serialize()) };
    let mut bad = [0xff; 33];
    bad[0] = 2;
    let mut t = vec![key(0), key(1), push(if tap { &bad[1..] } else { &bad }), push(&[0xff; 20]), push(&h_sha256(&preimage(0)).to_byte_array())];
    t.push(push(&h_hash160(&kpk(0).serialize()).to_byte_array()));
    t.push(push(&[32]));
    t.push(push(&[0]));
    t.push(push(&[100]));
    // 0 1 2 3 VERIFY IF NOTIF ELSE ENDIF TOALTSTACK FROMALTSTACK IFDUP DROP DUP SWAP SIZE EQUAL EQUALVERIFY
    // 0NOTEQUAL ADD BOOLAND BOOLOR SHA256 HASH160 CHECKSIG CHECKSIGVERIFY CHECKMULTISIG(VERIFY) CHECKSIGADD
    // CLTV CSV RETURN NUMEQUAL(VERIFY)
    t.extend(
        [0u8, 0x51, 0x52, 0x53, 0x69, 0x63, 0x64, 0x67, 0x68, 0x6b, 0x6c, 0x73, 0x75, 0x76, 0x7c, 0x82, 0x87, 0x88, 0x92, 0x93, 0x9a, 0x9b, 0xa8, 0xa9, 0xac, 0xad, 0xae, 0xaf, 0xba, 0xb1, 0xb2, 0x6a, 0x9c, 0x9d]
            .map(|o| vec![o]),
    );
    t
}
/// The pieces a script consists of.
fn cut(b: &[u8]) -> Vec<Vec<u8>> {
    let (mut v, mut i) = (vec![], 0);
    while i < b.len() {
        let n = 1 + if b[i] < 0x4c { b[i] as usize } else { 0 };
        v.push(b[i..(i + n).min(b.len())].to_vec());
        i += n;
    }
    v
}

/// An output with this script; none where the script means something else there.
fn odd(ot: Ot, b: &[u8]) -> Option<Kind> {
    let script = ScriptBuf::from_bytes(b.to_vec());
    let mut k = kind(if ot == Ot::Tr { "tr(L,pk(A))" } else { "pk(A)" });
    if (script.is_witness_program() || script.is_p2sh()) && matches!(ot, Ot::Bare | Ot::Sh) {
        return None;
    }
    k.ot = ot;
    let sh = |s: &Script| ScriptBuf::from_bytes([&[0xa9, 20][..], &h_hash160(s.as_bytes()).to_byte_array(), &[0x87]].concat());
    let wsh = |s: &Script| ScriptBuf::from_bytes([&[0, 32][..], &sha(s.as_bytes())].concat());
    match ot {
        Ot::Bare => k.spk = script,
        Ot::Sh => {
            k.spk = sh(&script);
            k.redeem = Some(script);
        }
        Ot::Wsh => {
            k.spk = wsh(&script);
            k.wscript = Some(script);
        }
        Ot::ShWsh => {
            k.spk = sh(&wsh(&script));
            k.redeem = Some(wsh(&script));
            k.wscript = Some(script);
        }
        Ot::Tr => {
            let t = k.tap.as_mut().unwrap();
            let info = TaprootBuilder::new().add_leaf(0, script.clone()).unwrap().finalize(secp(), t.internal.x()).unwrap();
            t.root = info.merkle_root();
            k.spk = ScriptBuf::from_bytes([&[0x51, 32][..], &info.output_key().to_x_only_public_key().serialize()].concat());
            let l = &mut t.leaves[0];
            l.hash = TapLeafHash::from_byte_array(interp::tap_leaf(b, 0xc0));
            l.control = info.control_block(&(script.clone(), LeafVersion::TapScript)).unwrap();
            l.script = script;
        }
        Ot::Wpkh | Ot::ShWpkh => panic!(),
    }
    k.keys = vec![crate::spend::Key { i: 0, unc: false }, crate::spend::Key { i: 1, unc: false }];
    if let Some(t) = &mut k.tap {
        t.leaves[0].keys = k.keys.clone();
    }
    Some(k)
}

/// Fills an input with everything, or only says what it is.
fn fill<I: InMap>(i: &mut I, k: &Kind, sp: &Spend, ix: usize, all: bool) {
    describe(i, k);
    sp.fund(i, ix, if k.segwit() { Form::Wit } else { Form::Non });
    if !all {
        return;
    }
    for key in &k.keys {
        let slot = match &k.tap {
            Some(t) => Slot::Leaf(key.i, t.leaves[0].hash),
            None => Slot::Ecdsa(*key),
        };
        if let Some(s) = make_sig(k, slot, &sp.tx, ix, &sp.prev, if k.schnorr() { 0 } else { 1 }) {
            add_sig(i, s);
        }
    }
    for h in HKS {
        let p = preimage(0);
        i.put_pre(h, p.to_vec(), &p);
    }
}

fn one(ctx: &Ctx, v2: bool, ks: [&Kind; 2], at: usize, all: bool) -> Res {
    let sp = spend(&[ks[0].spk.clone(), ks[1].spk.clone()], 1, 2, 100, &[10, 10]);
    ctx.step();
    let full = |ix: usize| ix != at || all;
    if v2 {
        let mut p = sp.v2();
        for ix in 0..2 {
            if ix == at {
                fill(&mut p.inputs[ix], ks[ix], &sp, ix, all);
            } else {
                done(&mut p.inputs[ix], ks[ix], &sp, ix);
            }
        }
        let f = v2::Finalizer::new(p).map_err(|e| format!("no finalizer: {}", e))?;
        match f.finalize(secp()) {
            Err(e) => {
                ctx.outcome("refused");
                ctx.err(&e)
            }
            Ok(q) => {
                ctx.outcome(if full(at) { "finalised" } else { "finalised without signatures" });
                ctx.step();
                let tx = v2::Extractor::new(q).map_err(|e| e.to_string())?.extract_tx_unchecked_fee_rate().map_err(|e| e.to_string())?;
                ctx.validated();
                interp::verify_all(&tx, &sp.prev).map_err(|e| format!("finalised but not valid: {}", e))
            }
        }
    } else {
        let mut p = sp.v0();
        for ix in 0..2 {
            if ix == at {
                fill(&mut p.inputs[ix], ks[ix], &sp, ix, all);
            } else {
                done(&mut p.inputs[ix], ks[ix], &sp, ix);
            }
        }
        let (p, w) = plant(p)?;
        for mall in [true, false] {
            let mut q = p.clone();
            ctx.step();
            let r = if mall { q.finalize_mall_mut(secp()) } else { q.finalize_mut(secp()) };
            let (_, a) = judge(Ver::V0, &q.ser());
            let a = a.ok_or("finalised PSBT is not well formed")?;
            let fin: Vec<bool> = (0..2).map(|ix| get(&a.i[ix], 7).is_some() || get(&a.i[ix], 8).is_some()).collect();
            if !fin[1 - at] {
                return Err(format!("the other input is not finalised (malleable {}): {:?}", mall, r));
            }
            ctx.outcome(if !fin[at] { "refused" } else if full(at) { "finalised" } else { "finalised without signatures" });
            match (&r, fin[at]) {
                (Ok(()), false) => return Err(format!("no error, but not finalised (malleable {})", mall)),
                (Err(e), true) => return Err(format!("finalised, but errors (malleable {}): {:?}", mall, e)),
                (Err(v), false) => {
                    if v.len() != 1 {
                        return Err(format!("{} errors for one input", v.len()));
                    }
                    ctx.err(&v[0])?;
                    if sorted(&a.i[at]) != sorted(&w.i[at]) {
                        return Err("was not finalised but changed".into());
                    }
                }
                (Ok(()), true) => {}
            }
            let tx = q.clone().extract_tx_unchecked_fee_rate();
            ctx.validated();
            for ix in (0..2).filter(|ix| fin[*ix]) {
                interp::verify(&tx, ix, &sp.prev).map_err(|e| format!("input {} is finalised but not valid (malleable {}): {}", ix, mall, e))?;
            }
            ctx.step();
            match (q.extract(secp()), fin[at]) {
                (Ok(t), true) if t == tx => {}
                (Err(e), false) => ctx.err(&e)?,
                (r, _) => return Err(format!("extract (malleable {}): {:?}", mall, r)),
            }
        }
        Ok(())
    }
}
/// The other input, with its signature.
fn done<I: InMap>(i: &mut I, k: &Kind, sp: &Spend, ix: usize) {
    describe(i, k);
    sp.fund(i, ix, Form::Wit);
    for s in &k.slots {
        add_sig(i, make_sig(k, *s, &sp.tx, ix, &sp.prev, 1).unwrap());
    }
}

/// A tree of leaves in which only the one called good, pk(B), can be relied on, with a signature for it.
fn tree(ctx: &Ctx, v2: bool, leaves: &[(u8, Vec<u8>, u8)], good: usize) -> Res {
    let mut k = kind("tr(L,pk(B))");
    let t = k.tap.as_mut().unwrap();
    let mut leaf = t.leaves.remove(0);
    let of = |i: usize| {
        let (_, b, v) = &leaves[i];
        if i == good { (leaf.script.clone(), LeafVersion::TapScript) } else { (ScriptBuf::from_bytes(b.clone()), LeafVersion::from_consensus(*v).unwrap()) }
    };
    let mut b = TaprootBuilder::new();
    for i in 0..leaves.len() {
        let (s, v) = of(i);
        b = b.add_leaf_with_ver(leaves[i].0, s, v).map_err(|e| format!("harness: {:?}", e))?;
    }
    let info = b.finalize(secp(), t.internal.x()).map_err(|_| "harness: tree")?;
    let all: Vec<_> = (0..leaves.len()).map(|i| (info.control_block(&of(i)).unwrap(), of(i))).collect();
    t.root = info.merkle_root();
    k.spk = ScriptBuf::from_bytes([&[0x51, 32][..], &info.output_key().to_x_only_public_key().serialize()].concat());
    leaf.control = all[good].0.clone();
    t.leaves.push(leaf);
    let sp = spend(&[k.spk.clone()], 1, 2, 100, &[10]);
    ctx.outcome(if all.iter().min_by_key(|a| &a.0).unwrap().0 == all[good].0 { "good leaf first" } else { "good leaf later" });
    fn set<I: InMap>(i: &mut I, k: &Kind, sp: &Spend, all: &[(bitcoin::taproot::ControlBlock, (ScriptBuf, LeafVersion))]) {
        describe(i, k);
        for (c, l) in all {
            i.tap_scripts().insert(c.clone(), l.clone());
        }
        sp.fund(i, 0, Form::Wit);
        let l = &k.tap.as_ref().unwrap().leaves[0];
        add_sig(i, make_sig(k, Slot::Leaf(l.keys[0].i, l.hash), &sp.tx, 0, &sp.prev, 0).unwrap());
    }
    let check = |tx: Transaction, how: &str| {
        ctx.validated();
        interp::verify_all(&tx, &sp.prev).map_err(|e| format!("finalised {} but not valid: {}", how, e))
    };
    ctx.step();
    if v2 {
        let mut p = sp.v2();
        set(&mut p.inputs[0], &k, &sp, &all);
        let q = v2::Finalizer::new(p).map_err(|e| format!("no finalizer: {}", e))?.finalize(secp()).map_err(|e| format!("not finalised although a leaf is signed: {}", e))?;
        ctx.step();
        check(v2::Extractor::new(q).map_err(|e| e.to_string())?.extract_tx_unchecked_fee_rate().map_err(|e| e.to_string())?, "")
    } else {
        let mut p = sp.v0();
        set(&mut p.inputs[0], &k, &sp, &all);
        for mall in [true, false] {
            let mut q = p.clone();
            ctx.step();
            if mall { q.finalize_mall_mut(secp()) } else { q.finalize_mut(secp()) }.map_err(|e| format!("not finalised although a leaf is signed (malleable {}): {:?}", mall, e))?;
            check(q.extract_tx_unchecked_fee_rate(), if mall { "malleably" } else { "non-malleably" })?;
        }
        Ok(())
    }
}
/// Trees with a leaf that is signed for beside others that nothing is known about.
fn trees(ctx: &Ctx, v2: bool) {
    let mut odd: Vec<(Vec<u8>, u8)> = vec![];
    let t = tokens(true);
    let n = 1 + ctx.thorough as usize;
    for len in 0..=n {
        for mut c in 0..t.len().pow(len as u32) {
            let mut b = vec![];
            for _ in 0..len {
                b.extend(&t[c % t.len()]);
                c /= t.len();
            }
            odd.push((b, 0xc0));
        }
    }
    for b in [vec![], vec![0x51], vec![0x6a], vec![0x50], vec![0x4c], vec![0xff; 3]] {
        odd.extend([0xc0, 0xc2, 0xfe].map(|v| (b.clone(), v)));
    }
    for k in kinds(&["tr(L,pk(A))", "tr(L,and_v(v:pk(A),older(5)))", "tr(L,multi_a(2,A,B))"]) {
        odd.extend([0xc0, 0xc4].map(|v| (k.tap.as_ref().unwrap().leaves[0].script.to_bytes(), v)));
    }
    odd.sort();
    odd.dedup();
    ctx.bound("odd leaves beside one that is signed", odd.len());
    let good = || (vec![], 0xc0);
    for (i, o) in odd.iter().enumerate() {
        let next = &odd[(i + 1) % odd.len()];
        // Depth of each leaf and which of them is the good one.
        for (shape, ls, g) in [
            ("{good,x}", vec![(1, good()), (1, o.clone())], 0),
            ("{x,{good,y}}", vec![(1, o.clone()), (2, good()), (2, next.clone())], 1),
            ("{good,{x,y}}", vec![(1, good()), (2, o.clone()), (2, next.clone())], 0),
        ] {
            ctx.case(
                || format!("tree {} x={} version {:x}", shape, hex(&o.0), o.1),
                |ctx| tree(ctx, v2, &ls.iter().map(|(d, (b, v))| (*d, b.clone(), *v)).collect::<Vec<_>>(), g),
            );
        }
    }
}

pub fn odd_scripts(ctx: &Ctx, v2: bool) {
    trees(ctx, v2);
    let other = kind("wpkh(C)");
    let run = |ot: Ot, b: Vec<u8>, all: bool| {
        ctx.case(
            || format!("{:?} script {}, {}", ot, hex(&b), if all { "signed" } else { "unsigned" }),
            |ctx| {
                let Some(k) = odd(ot, &b) else { return Ok(()) };
                let at = b.len() % 2;
                one(ctx, v2, if at == 0 { [&k, &other] } else { [&other, &k] }, at, all)
            },
        )
    };
    // Every string of so many pieces.
    for (ot, n) in [(Ot::Wsh, 3), (Ot::Bare, 2), (Ot::Sh, 2), (Ot::ShWsh, 2), (Ot::Tr, 2)] {
        let n = n + ctx.thorough as usize;
        let t = tokens(ot == Ot::Tr);
        ctx.bound(&format!("pieces of a {:?} script", ot), n);
        for len in 0..=n {
            let count = t.len().pow(len as u32);
            for mut c in 0..count {
                let mut b = vec![];
                for _ in 0..len {
                    b.extend(&t[c % t.len()]);
                    c /= t.len();
                }
                run(ot, b.clone(), true);
                if len <= 2 {
                    run(ot, b, false);
                }
            }
        }
    }
    // Every script one piece away from one of a descriptor.
    let names: Vec<&str> = SIGN_KINDS.iter().chain(MORE_KINDS).copied().collect();
    let mut scripts: Vec<(Ot, Vec<u8>)> = kinds(&names)
        .into_iter()
        .flat_map(|k| match k.ot {
            Ot::Bare => vec![(k.ot, k.spk.into_bytes())],
            Ot::Sh => vec![(k.ot, k.redeem.unwrap().into_bytes())],
            Ot::Wsh | Ot::ShWsh => vec![(k.ot, k.wscript.unwrap().into_bytes())],
            Ot::Tr => k.tap.unwrap().leaves.into_iter().map(|l| (Ot::Tr, l.script.into_bytes())).collect(),
            _ => vec![],
        })
        .collect();
    if ctx.thorough {
        for k in grown("wsh(*)", 2, false) {
            scripts.push((Ot::Wsh, k.wscript.unwrap().into_bytes()));
        }
        for k in grown("tr(L,*)", 2, false) {
            scripts.push((Ot::Tr, k.tap.unwrap().leaves[0].script.to_bytes()));
        }
    }
    scripts.sort_by_key(|s| format!("{:?}", s));
    scripts.dedup();
    ctx.bound("scripts changed by one piece", scripts.len());
    for (ot, b) in scripts {
        let t = tokens(ot == Ot::Tr);
        let p = cut(&b);
        for i in 0..=p.len() {
            let put = |mid: &[&Vec<u8>], from: usize| [p[..i].concat(), mid.iter().flat_map(|m| m.iter().copied()).collect(), p[from..].concat()].concat();
            run(ot, p[..i].concat(), true);
            for x in &t {
                run(ot, put(&[x], i), true);
            }
            if i < p.len() {
                run(ot, put(&[], i + 1), true);
                for x in &t {
                    run(ot, put(&[x], i + 1), true);
                }
                for j in i + 1..p.len() {
                    let mut q = p.clone();
                    q.swap(i, j);
                    run(ot, q.concat(), true);
                }
                // A piece cut short.
                let end = p[..i].concat();
                for l in 1..p[i].len() {
                    run(ot, [&end[..], &p[i][..l]].concat(), true);
                }
            }
        }
    }
}
