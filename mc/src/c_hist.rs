//! C03: unknown and proprietary pairs through every sequence of role operations.
use crate::c_combine::CombineV;
use crate::run::*;
use crate::spend::*;
use crate::util::*;
use crate::wire::*;
use bitcoin::*;
use miniscript::{DefiniteDescriptorKey, Descriptor};
use psbt_v2::v0::miniscript::PsbtExt;
use psbt_v2::v2::{Constructor, InputsOnlyModifiable, Modifiable, OutputsOnlyModifiable};
use psbt_v2::{v0, v2};
use std::collections::{BTreeSet, HashMap, VecDeque};
use std::str::FromStr;

/// Types the library gives a meaning to, or must refuse, per map.
fn meant(v: Ver, k: K, t: u8) -> bool {
    match (v, k) {
        (Ver::V0, K::G) => t <= 0x08 || t == 0xfb,
        (Ver::V2, K::G) => t <= 0x08 || t == 0xfb,
        (Ver::V0, K::I) | (Ver::V2, K::I) => t <= 0x18 || t == 0x1d || t == 0x1e,
        (Ver::V0, K::O) | (Ver::V2, K::O) => t <= 0x07 || t == 0x09 || t == 0x0a,
    }
}
type Tracked = Vec<BTreeSet<Kv>>;
fn tracked(v: Ver, w: &WPsbt) -> Tracked {
    let mut w = w.clone();
    (0..w.n_maps())
        .map(|ix| {
            let k = w.kind(ix);
            w.map_mut(ix).iter().filter(|p| !meant(v, k, p.t)).cloned().collect()
        })
        .collect()
}
fn see<P: Hist>(p: &P) -> Result<Tracked, String> {
    let maps = frame(&p.ser()).ok_or("what is written is not a PSBT")?;
    let (i, o) = p.counts();
    if maps.len() != 1 + i + o {
        return Err(format!("{} maps written instead of {}", maps.len(), 1 + i + o));
    }
    let w = WPsbt { g: maps[0].clone(), i: maps[1..1 + i].to_vec(), o: maps[1 + i..].to_vec() };
    let t = tracked(P::VER, &w);
    // The public maps say the same.
    if p.sizes() != t.iter().map(|m| (m.iter().filter(|p| p.t != 0xfc).count(), m.iter().filter(|p| p.t == 0xfc).count())).collect::<Vec<_>>() {
        return Err("public maps differ from what is written".into());
    }
    Ok(t)
}
fn compare(got: &Tracked, want: &Tracked) -> Res {
    if got.len() != want.len() {
        return Err(format!("{} maps instead of {}", got.len(), want.len()));
    }
    for (ix, (g, w)) in got.iter().zip(want).enumerate() {
        let show = |v: Vec<&Kv>| v.into_iter().map(crate::c_codec::show_kv).collect::<Vec<_>>().join(", ");
        let lost = show(w.difference(g).collect());
        let new = show(g.difference(w).collect());
        if !lost.is_empty() || !new.is_empty() {
            return Err(format!("map {}: lost [{}], gained [{}]", ix, lost, new));
        }
    }
    Ok(())
}
fn union(a: &Tracked, b: &Tracked) -> Tracked { a.iter().zip(b).map(|(x, y)| x.union(y).cloned().collect()).collect() }

trait Hist: CombineV + FromStr + std::fmt::Display + serde::Serialize + for<'a> serde::Deserialize<'a> {
    fn counts(&self) -> (usize, usize);
    /// Unknown and proprietary pairs in each map.
    fn sizes(&self) -> Vec<(usize, usize)>;
    fn start(s: &Scenario) -> Self;
    /// Every operation with its result, the pairs it must add to new maps, and where these maps go.
    fn ops(&self, ctx: &Ctx, s: &Scenario) -> Result<Vec<(String, Option<Self>, Added)>, String>;
    /// Signed with the first key, and then finalised.
    fn sign_and_finish(p: &Self) -> Result<(Self, Self), String>;
}
enum Added { Nothing, Input(BTreeSet<Kv>), Output(BTreeSet<Kv>) }

struct Scenario { kinds: Vec<Kind>, sp: Spend, descs: Vec<Descriptor<DefiniteDescriptorKey>>, masks: Vec<u32>, funded: bool, wide: bool }

fn scenario(names: &[&str], masks: &[u32], funded: bool, wide: bool) -> Scenario {
    let kinds = kinds(names);
    let spks: Vec<_> = kinds.iter().map(|k| k.spk.clone()).collect();
    let mut sp = spend(&spks, 2, 2, 100, &vec![10; spks.len()]);
    sp.tx.output[0].script_pubkey = kinds[0].spk.clone();
    let descs = kinds.iter().map(|k| Descriptor::from_str(&k.text).unwrap()).collect();
    Scenario { kinds, sp, descs, masks: masks.to_vec(), funded, wide }
}

fn fill<I: InMap>(s: &Scenario, ix: usize, i: &mut I) {
    let k = &s.kinds[ix];
    if s.funded {
        describe(i, k);
        s.sp.fund(i, ix, if k.segwit() { Form::Wit } else { Form::Non });
        for (hk, n) in &k.hashes {
            i.put_pre(*hk, preimage(*n).to_vec(), &preimage(*n));
        }
    }
}

fn new_pairs(tag: u8) -> BTreeSet<Kv> {
    [kv(0x50, [tag], [tag, 2]), kv(0xff, [], []), kv(0xfc, [1, b'n', 3, tag], [4])].into()
}

impl Hist for v2::Psbt {
    fn sign_and_finish(p: &Self) -> Result<(Self, Self), String> {
        let (q, _) = v2::Signer::new(p.clone()).map_err(|e| e.to_string())?.sign(&Prov::new(1, Ans::Both), secp()).map_err(|e| format!("{:?}", e))?;
        let f = v2::Finalizer::new(q.clone()).map_err(|e| e.to_string())?.finalize(secp()).map_err(|e| format!("{:?}", e))?;
        Ok((q, f))
    }
    fn counts(&self) -> (usize, usize) { (self.inputs.len(), self.outputs.len()) }
    fn sizes(&self) -> Vec<(usize, usize)> {
        let mut v = vec![(self.global.unknowns.len(), self.global.proprietaries.len())];
        v.extend(self.inputs.iter().map(|i| (i.unknowns.len(), i.proprietaries.len())));
        v.extend(self.outputs.iter().map(|i| (i.unknowns.len(), i.proprietaries.len())));
        v
    }
    fn start(s: &Scenario) -> Self {
        let mut p = s.sp.v2();
        for ix in 0..s.kinds.len() {
            fill(s, ix, &mut p.inputs[ix]);
        }
        p.global.tx_modifiable_flags = 3;
        p
    }
    fn ops(&self, ctx: &Ctx, s: &Scenario) -> Result<Vec<(String, Option<Self>, Added)>, String> {
        let mut v: Vec<(String, Option<Self>, Added)> = vec![];
        let p = || self.clone();
        macro_rules! put {
            ($n:expr, $r:expr) => {{
                ctx.step();
                let r = match $r {
                    Ok(x) => Some(x),
                    Err(e) => {
                        ctx.err(&e)?;
                        None
                    }
                };
                v.push(($n.to_string(), r, Added::Nothing));
            }};
        }
        for (ix, q) in [(0, 5), (self.inputs.len().saturating_sub(1), 0xffff_ffff), (self.inputs.len(), 0)] {
            put!(format!("set_sequence({}, {})", ix, q), v2::Updater::new(p()).and_then(|u| Ok(u.set_sequence(Sequence(q), ix).map(|u| u.psbt()).unwrap_or_else(|_| p()))));
        }
        for m in &s.masks {
            ctx.step();
            if let Ok(sg) = v2::Signer::new(p()) {
                if let Ok((q, _)) = sg.sign(&Prov::new(*m, Ans::Both), secp()) {
                    v.push((format!("sign({:#x})", m), Some(q), Added::Nothing));
                }
            }
        }
        ctx.step();
        if let Ok(mut sg) = v2::Signer::new(p()) {
            sg.ecdsa_clear_tx_modifiable(EcdsaSighashType::All);
            v.push(("clear flags".into(), Some(sg.psbt()), Added::Nothing));
        }
        if let Ok(f) = v2::Finalizer::new(p()) {
            put!("finalise", f.finalize(secp()));
        }
        put!("constructor, no more inputs", Constructor::<Modifiable>::new(p()).map(|c| c.no_more_inputs().psbt().unwrap_or_else(|_| p())));
        put!("constructor, no more outputs", Constructor::<Modifiable>::new(p()).map(|c| c.no_more_outputs().psbt().unwrap_or_else(|_| p())));
        put!("inputs constructor, updater", Constructor::<InputsOnlyModifiable>::new(p()).map(|c| c.updater().map(|u| u.psbt()).unwrap_or_else(|_| p())));
        put!("outputs constructor, updater", Constructor::<OutputsOnlyModifiable>::new(p()).map(|c| c.updater().map(|u| u.psbt()).unwrap_or_else(|_| p())));
        if s.wide && self.inputs.len() < 4 && self.outputs.len() < 4 {
            let n = (self.inputs.len() + self.outputs.len()) as u8;
            let unk = |m: &mut std::collections::BTreeMap<psbt_v2::raw::Key, Vec<u8>>, pr: &mut std::collections::BTreeMap<psbt_v2::raw::ProprietaryKey, Vec<u8>>| {
                m.insert(psbt_v2::raw::Key { type_value: 0x50, key: vec![n] }, vec![n, 2]);
                m.insert(psbt_v2::raw::Key { type_value: 0xff, key: vec![] }, vec![]);
                pr.insert(psbt_v2::raw::ProprietaryKey { prefix: b"n".to_vec(), subtype: 3, key: vec![n] }, vec![4]);
            };
            let mut i = v2::InputBuilder::new(&op(800 + n as u32, 1)).build();
            unk(&mut i.unknowns, &mut i.proprietaries);
            let mut o = v2::OutputBuilder::new(txo(5, p2wpkh(3))).build();
            unk(&mut o.unknowns, &mut o.proprietaries);
            ctx.steps(4);
            if let Ok(c) = Constructor::<Modifiable>::new(p()) {
                v.push(("add an input".into(), c.input(i.clone()).psbt().ok(), Added::Input(new_pairs(n))));
            }
            if let Ok(c) = Constructor::<InputsOnlyModifiable>::new(p()) {
                v.push(("add an input (inputs only)".into(), c.input(i).psbt().ok(), Added::Input(new_pairs(n))));
            }
            if let Ok(c) = Constructor::<Modifiable>::new(p()) {
                v.push(("add an output".into(), c.output(o.clone()).psbt().ok(), Added::Output(new_pairs(n))));
            }
            if let Ok(c) = Constructor::<OutputsOnlyModifiable>::new(p()) {
                v.push(("add an output (outputs only)".into(), c.output(o).psbt().ok(), Added::Output(new_pairs(n))));
            }
        }
        Ok(v)
    }
}

impl Hist for v0::Psbt {
    fn sign_and_finish(p: &Self) -> Result<(Self, Self), String> {
        let mut q = p.clone();
        q.sign(&Prov::new(1, Ans::Both), secp()).map_err(|e| format!("{:?}", e))?;
        let f = q.clone().finalize(secp()).map_err(|(_, e)| format!("{:?}", e))?;
        Ok((q, f))
    }
    fn counts(&self) -> (usize, usize) { (self.inputs.len(), self.outputs.len()) }
    fn sizes(&self) -> Vec<(usize, usize)> {
        let mut v = vec![(self.unknown.len(), self.proprietary.len())];
        v.extend(self.inputs.iter().map(|i| (i.unknown.len(), i.proprietary.len())));
        v.extend(self.outputs.iter().map(|i| (i.unknown.len(), i.proprietary.len())));
        v
    }
    fn start(s: &Scenario) -> Self {
        let mut p = s.sp.v0();
        for ix in 0..s.kinds.len() {
            fill(s, ix, &mut p.inputs[ix]);
        }
        p
    }
    fn ops(&self, ctx: &Ctx, s: &Scenario) -> Result<Vec<(String, Option<Self>, Added)>, String> {
        let mut v: Vec<(String, Option<Self>, Added)> = vec![];
        let mut put = |n: String, f: &dyn Fn(&mut v0::Psbt)| {
            ctx.step();
            let mut p = self.clone();
            f(&mut p);
            v.push((n, Some(p), Added::Nothing));
        };
        for m in &s.masks {
            put(format!("sign({:#x})", m), &|p| drop(p.sign(&Prov::new(*m, Ans::Both), secp())));
        }
        put("finalize_mut".into(), &|p| drop(p.finalize_mut(secp())));
        put("finalize_mall_mut".into(), &|p| drop(p.finalize_mall_mut(secp())));
        put("finalize".into(), &|p| *p = p.clone().finalize(secp()).unwrap_or_else(|(p, _)| p));
        put("finalize_mall".into(), &|p| *p = p.clone().finalize_mall(secp()).unwrap_or_else(|(p, _)| p));
        #[allow(deprecated)]
        put("free finalize".into(), &|p| drop(v0::miniscript::finalize(p, secp())));
        for ix in 0..self.inputs.len() {
            put(format!("finalize_inp_mut({})", ix), &|p| drop(p.finalize_inp_mut(secp(), ix)));
            put(format!("finalize_inp_mall({})", ix), &|p| *p = p.clone().finalize_inp_mall(secp(), ix).unwrap_or_else(|(p, _)| p));
            for (n, d) in s.descs.iter().enumerate() {
                put(format!("update_input({}, {})", ix, n), &|p| drop(p.update_input_with_descriptor(ix, d)));
            }
        }
        for ix in 0..self.outputs.len() {
            put(format!("update_output({}, 0)", ix), &|p| drop(p.update_output_with_descriptor(ix, &s.descs[0])));
        }
        Ok(v)
    }
}

/// One pass over every operation that any PSBT has, from `p`.
fn all_ops<P: Hist>(ctx: &Ctx, s: &Scenario, p: &P, t: &Tracked, merge: &[(P, Tracked)]) -> Result<Vec<(String, P, Tracked)>, String>
where
    <P as FromStr>::Err: std::fmt::Debug,
{
    let mut out = vec![];
    let text = p.to_string();
    ctx.steps(3);
    out.push(("parse".to_string(), P::de(&p.ser()).map_err(|e| format!("own bytes do not parse: {:?}", e))?, t.clone()));
    out.push(("text".into(), P::from_str(&text).map_err(|e| format!("own text does not parse: {:?}", e))?, t.clone()));
    let j = serde_json::to_string(p).map_err(|e| e.to_string())?;
    // Whether it can be read back is for C05 to decide.
    if let Ok(q) = serde_json::from_str(&j) {
        out.push(("JSON".into(), q, t.clone()));
    }
    for (n, (q, u)) in merge.iter().enumerate() {
        ctx.steps(2);
        for (name, r) in [("combine with", P::combine2(p.clone(), q.clone())), ("combine into", P::combine2(q.clone(), p.clone()))] {
            if let Ok(r) = r {
                out.push((format!("{} {}", name, n), r, union(t, u)));
            }
        }
    }
    let (n_in, _) = p.counts();
    for (name, r, added) in p.ops(ctx, s)? {
        if let Some(r) = r {
            let mut u = t.clone();
            match added {
                Added::Nothing => {}
                Added::Input(b) => u.insert(1 + n_in, b),
                Added::Output(b) => u.push(b),
            }
            out.push((name, r, u));
        }
    }
    Ok(out)
}

fn plant<P: Hist>(p: &P, pairs: &dyn Fn(usize, K) -> Vec<Kv>) -> Result<(P, Tracked), String> {
    let (_, w) = judge(P::VER, &p.ser());
    let mut w = w.ok_or("harness error: PSBT is not well formed")?;
    for ix in 0..w.n_maps() {
        let k = w.kind(ix);
        let new = pairs(ix, k);
        w.map_mut(ix).extend(new);
    }
    let p = P::de(&w.bytes()).map_err(|e| format!("does not parse: {:?}", e))?;
    Ok((p, tracked(P::VER, &w)))
}

/// A set of pairs for every map.
fn dense(v: Ver, set: u8) -> impl Fn(usize, K) -> Vec<Kv> {
    move |ix, k| {
        let ix = ix as u8;
        // The first type after the known ones, one in the middle, and the last.
        let next = (0..=255u8).find(|t| !meant(v, k, *t)).unwrap();
        vec![
            kv(next, [set, ix], [set, 1]),
            kv(0x77, [set], vec![ix; 300]),
            kv(0x77, [set, 0], []),
            // The same in every set.
            kv(0x78, [ix], [1]),
            kv(0xfd, [set; 40], [0]),
            kv(0xfc, [2, b'm', b'c', set, ix], [7; 3]),
            kv(0xfc, [2, b'm', b'c', 9], [ix]),
            kv(0xfc, [0, set], []),
        ]
    }
}

fn explore<P: Hist>(ctx: &Ctx, s: &Scenario, depth: usize, cap: usize) -> Res
where
    <P as FromStr>::Err: std::fmt::Debug,
{
    let base = P::start(s);
    let (a, ta) = plant(&base, &dense(P::VER, 1))?;
    let merge = vec![plant(&base, &dense(P::VER, 2))?, plant(&base, &|_, _| vec![])?, plant(&base, &dense(P::VER, 1))?];
    let mut seen: HashMap<Vec<u8>, usize> = HashMap::new();
    let mut states: Vec<(P, Tracked, String, usize)> = vec![(a.clone(), ta.clone(), "".into(), 0)];
    seen.insert(a.ser(), 0);
    compare(&see(&a)?, &ta)?;
    let mut queue: VecDeque<usize> = [0].into();
    while let Some(ix) = queue.pop_front() {
        let (p, t, path, d) = (states[ix].0.clone(), states[ix].1.clone(), states[ix].2.clone(), states[ix].3);
        if d == depth {
            continue;
        }
        for (name, q, u) in all_ops(ctx, s, &p, &t, &merge)? {
            let got = see(&q).map_err(|e| format!("after {}, {}: {}", path, name, e))?;
            compare(&got, &u).map_err(|e| format!("after {}, {}: {}", path, name, e))?;
            ctx.validated();
            let b = q.ser();
            if !seen.contains_key(&b) {
                ctx.state(&b);
                seen.insert(b, states.len());
                queue.push_back(states.len());
                states.push((q, u, format!("{}, {}", path, name), d + 1));
                if states.len() > 20_000 {
                    return Err("harness error: too many states".into());
                }
            }
        }
    }
    ctx.outcome(if states.iter().any(|s| s.3 == depth) { "up to the depth" } else { "complete" });
    // Merging any two states.
    let step = (states.len() / cap).max(1);
    let some: Vec<_> = states.iter().step_by(step).collect();
    for x in &some {
        for y in &some {
            ctx.step();
            if let Ok(r) = P::combine2(x.0.clone(), y.0.clone()) {
                compare(&see(&r)?, &union(&x.1, &y.1)).map_err(|e| format!("combining [{}] with [{}]: {}", x.2, y.2, e))?;
                ctx.validated();
            }
        }
    }
    Ok(())
}

/// One pair in one map, through every operation once, and through parsing, signing and finalising in a row.
fn single<P: Hist>(ctx: &Ctx, s: &Scenario, base: &P, map: usize, pair: &Kv) -> Res
where
    <P as FromStr>::Err: std::fmt::Debug,
{
    let (p, t) = plant(base, &|ix, _| if ix == map { vec![pair.clone()] } else { vec![] })?;
    if t.iter().map(|m| m.len()).sum::<usize>() != 1 {
        return Err("harness error: not one pair".into());
    }
    compare(&see(&p)?, &t)?;
    let other = plant(base, &|_, _| vec![])?;
    let mut last = p.clone();
    for (name, q, u) in all_ops(ctx, s, &p, &t, &[other])? {
        compare(&see(&q)?, &u).map_err(|e| format!("{}: {}", name, e))?;
        ctx.validated();
        if name.starts_with("sign(0xf") {
            last = q;
        }
    }
    for (name, q, u) in all_ops(ctx, s, &last, &t, &[])? {
        compare(&see(&q)?, &u).map_err(|e| format!("signed, {}: {}", name, e))?;
        ctx.validated();
    }
    ctx.state(&p.ser());
    Ok(())
}

fn version<P: Hist>(ctx: &Ctx)
where
    <P as FromStr>::Err: std::fmt::Debug,
{
    // 1. Histories.
    let sets: &[(&[&str], &[u32], bool, bool)] = &[
        (&["wpkh(A)", "tr(B,pk(C))"], &[1, 6, 4], true, false),
        (&["sh(multi(2,A,B,C))", "wsh(and_v(v:pk(A),sha256(h0)))"], &[1, 2, 6], true, false),
        (&["tr(A,{pk(B),multi_a(2,A,B)})", "sh(wpkh(C))"], &[1, 2, 4], true, false),
        (&["wpkh(A)"], &[1], true, true),
        (&["wpkh(A)"], &[1], false, true),
        (&[], &[], false, true),
        (&["pkh(A)", "wsh(pkh(A))", "tr(A)"], &[1], true, false),
    ];
    let depth = if ctx.thorough { 7 } else { 5 };
    ctx.bound("length of histories", depth);
    for (n, (names, masks, funded, wide)) in sets.iter().enumerate() {
        let s = scenario(if names.is_empty() { &["wpkh(A)"] } else { names }, masks, *funded, *wide);
        ctx.case(|| format!("{:?} history {}: {:?}", P::VER, n, names), |ctx| explore::<P>(ctx, &s, depth, if ctx.thorough { 300 } else { 150 }));
    }
    // 2. Every type, with short and long key data and values.
    let s = scenario(&["wpkh(A)", "tr(B,pk(C))"], &[0xf], true, true);
    let base = P::start(&s);
    let long = vec![0xa5; 300];
    let kds: [&[u8]; 4] = [&[], &[0], &[1; 33], &long];
    let vs: [&[u8]; 4] = [&[], &[0], &[0xfd, 0xff, 0xff], &long];
    for (map, k) in [(0, K::G), (1, K::I), (2, K::I), (3, K::O), (4, K::O)] {
        if !ctx.thorough && matches!(map, 2 | 3) {
            continue;
        }
        for t in 0..=255u8 {
            if meant(P::VER, k, t) || t == 0xfc {
                continue;
            }
            for (a, kd) in kds.iter().enumerate() {
                for (b, v) in vs.iter().enumerate() {
                    // Quick: all four of each, not all pairs.
                    if !ctx.thorough && a != b {
                        continue;
                    }
                    let p = kv(t, *kd, *v);
                    ctx.case(|| format!("{:?} map {} type {:#x} key data {} value {}", P::VER, map, t, kd.len(), v.len()), |ctx| single(ctx, &s, &base, map, &p));
                }
            }
        }
        for prefix in [&[][..], b"a", &[0xfc], &[0; 252], &[1; 253], &[2; 300]] {
            for sub in [0u8, 1, 0x7f, 0xfb, 0xfc, 0xfd, 0xff] {
                for kd in [&[][..], &[0], &[0xff; 40], &[3; 1024]] {
                    for v in [&[][..], &[1], &long] {
                        if !ctx.thorough && (v.len() + kd.len() + sub as usize) % 3 != 0 {
                            continue;
                        }
                        let p = kv(0xfc, [cs(prefix.len() as u64).as_slice(), prefix, &[sub], kd].concat(), v);
                        ctx.case(|| format!("{:?} map {} proprietary prefix {} subtype {:#x} key {} value {}", P::VER, map, prefix.len(), sub, kd.len(), v.len()), |ctx| single(ctx, &s, &base, map, &p));
                    }
                }
            }
        }
    }
}

/// Every operation once, with the pairs that `pairs` names, on a signed and an unsigned PSBT.
fn once<P: Hist>(ctx: &Ctx, s: &Scenario, base: &P, pairs: &dyn Fn(usize, K) -> Vec<Kv>) -> Res
where
    <P as FromStr>::Err: std::fmt::Debug,
{
    let (p, t) = plant(base, pairs)?;
    compare(&see(&p)?, &t)?;
    let other = plant(base, &|_, _| vec![])?;
    let mut last = p.clone();
    for (name, q, u) in all_ops(ctx, s, &p, &t, &[other])? {
        compare(&see(&q)?, &u).map_err(|e| format!("{}: {}", name, e))?;
        ctx.validated();
        if name.starts_with("sign(") {
            last = q;
        }
    }
    for (name, q, u) in all_ops(ctx, s, &last, &t, &[])? {
        compare(&see(&q)?, &u).map_err(|e| format!("signed, {}: {}", name, e))?;
        ctx.validated();
    }
    ctx.state(&p.ser());
    Ok(())
}

/// Beside every other field, for every kind of output, in long PSBTs and among many pairs.
fn beside<P: Hist>(ctx: &Ctx)
where
    <P as FromStr>::Err: std::fmt::Debug,
{
    use crate::c_sign::{bystand, bystanders};
    let some = |v: Ver| {
        let d = dense(v, 1);
        move |ix, k| d(ix, k)
    };
    ctx.bound("other fields", "every value of the table, once through every operation");
    let s = scenario(&["wpkh(A)", "tr(B,pk(C))"], &[0xf], true, true);
    for (name, b) in bystanders::<P>(ctx.thorough, 2, 2, |a, _| matches!(a.field, "unknown" | "proprietary")) {
        ctx.case(
            || format!("{:?} beside {}", P::VER, name),
            |ctx| {
                let mut base = P::start(&s);
                bystand(&mut base, &[b]);
                once(ctx, &s, &base, &some(P::VER))
            },
        );
    }
    for name in SIGN_KINDS {
        for n in 0..2 {
            ctx.case(
                || format!("{:?} {} input {}", P::VER, name, n),
                |ctx| {
                    let s = scenario(&if n == 0 { [name, "pkh(A)"] } else { ["tr(A)", name] }, &[0xfff, 3], true, true);
                    once(ctx, &s, &P::start(&s), &some(P::VER))
                },
            );
        }
    }
    // Every map kind alone: 300 inputs, the pairs in one of them, in one output or in the global map.
    for at in crate::fields::FAR {
        for k in 0..3 {
            ctx.case(
                || format!("{:?} long, map kind {} number {}", P::VER, k, at),
                |ctx| {
                    let k0 = kinds(&["wpkh(A)"]);
                    let spks: Vec<_> = vec![k0[0].spk.clone(); 300];
                    let sp = spend(&spks, 300, 2, 100, &[10; 300]);
                    let s = Scenario { kinds: (0..300).map(|_| kind("wpkh(A)")).collect(), sp, descs: vec![], masks: vec![], funded: true, wide: false };
                    let base = P::start(&s);
                    let ix = match k { 0 => 0, 1 => 1 + at, _ => 301 + at };
                    let d = dense(P::VER, 1);
                    let (p, t) = plant(&base, &|i, k| if i == ix { d(7, k) } else { vec![] })?;
                    compare(&see(&p)?, &t)?;
                    let other = plant(&base, &|i, k| if i == 1 + at { dense(P::VER, 2)(7, k) } else { vec![] })?;
                    let mut ops = vec![
                        ("parse", P::de(&p.ser()).map_err(|e| format!("{:?}", e))?, t.clone()),
                        ("text", P::from_str(&p.to_string()).map_err(|e| format!("{:?}", e))?, t.clone()),
                        ("combine", P::combine2(p.clone(), other.0.clone()).map_err(|e| format!("{:?}", e))?, union(&t, &other.1)),
                        ("combine into", P::combine2(other.0.clone(), p.clone()).map_err(|e| format!("{:?}", e))?, union(&t, &other.1)),
                    ];
                    let (signed, done) = P::sign_and_finish(&p)?;
                    ops.push(("sign", signed, t.clone()));
                    ops.push(("finalise", done, t.clone()));
                    for (n, q, u) in &ops {
                        ctx.step();
                        compare(&see(q)?, u).map_err(|e| format!("{}: {}", n, e))?;
                        ctx.validated();
                    }
                    Ok(())
                },
            );
        }
    }
    for a in crate::fields::crowded::<P>().into_iter().filter(|a| matches!(a.field, "unknown" | "proprietary")) {
        for n in [253u32, 256, 300] {
            ctx.case(
                || format!("{:?} {} {}", P::VER, n, a.name),
                |ctx| {
                    let s = scenario(&["wpkh(A)", "tr(B,pk(C))"], &[0xf], true, false);
                    let k = a.k;
                    once(ctx, &s, &P::start(&s), &|_, kk| {
                        let same = matches!((k, kk), (crate::wire::K::G, K::G) | (crate::wire::K::I, K::I) | (crate::wire::K::O, K::O));
                        if same { (0..n).flat_map(|i| crate::fields::crowd(a, i).unwrap()).map(|p| if p.t == 0xfc { p } else { kv(0x77, p.kd, p.v) }).collect() } else { vec![] }
                    })
                },
            );
        }
    }
}

pub fn unknowns(ctx: &Ctx) {
    beside::<v2::Psbt>(ctx);
    beside::<v0::Psbt>(ctx);
    version::<v2::Psbt>(ctx);
    version::<v0::Psbt>(ctx);
}
