//! C01, C02, C06, C07, C04: the binary codec of both versions.
use crate::fields::*;
use crate::run::*;
use crate::util::*;
use crate::wire::*;

/// Pairs that say only what their absence says.
fn drop_defaults(ver: Ver, maps: &mut [Vec<Kv>], n_out: usize) {
    // A tap tree says the same whichever child of a branch comes first.
    let n = maps.len();
    for m in &mut maps[n - n_out.min(n)..] {
        for p in m {
            if p.t == 6 && p.kd.is_empty() {
                p.v = tap_tree_canon(&p.v);
            }
        }
    }
    maps[0].retain(|p| match ver {
        Ver::V2 => !(p.t == 6 && p.v == [0]),
        Ver::V0 => !(p.t == 0xfb),
    });
}
pub fn canon_of(ver: Ver, w: &WPsbt) -> Vec<Vec<Kv>> {
    let mut w = w.clone();
    if ver == Ver::V2 {
        normalise::<psbt_v2::v2::Psbt>(&mut w);
    }
    let mut c = w.canon();
    drop_defaults(ver, &mut c, w.o.len());
    c
}
pub fn canon_bytes(ver: Ver, bytes: &[u8], n_out: usize) -> Result<Vec<Vec<Kv>>, String> {
    let mut maps = frame(bytes).ok_or_else(|| format!("output is not framed: {}", hex(bytes)))?;
    for m in &mut maps {
        m.sort();
    }
    if maps.is_empty() {
        return Err("no global map".into());
    }
    drop_defaults(ver, &mut maps, n_out);
    Ok(maps)
}
pub fn show_kv(p: &Kv) -> String {
    let cut = |b: &[u8]| if b.len() > 80 { format!("{}..({})", hex(&b[..80]), b.len()) } else { hex(b) };
    format!("{:02x}|{}={}", p.t, cut(&p.kd), cut(&p.v))
}
pub fn diff(exp: &[Vec<Kv>], got: &[Vec<Kv>]) -> Option<String> {
    if exp.len() != got.len() {
        return Some(format!("{} maps, expected {}", got.len(), exp.len()));
    }
    for (i, (e, g)) in exp.iter().zip(got).enumerate() {
        if e != g {
            let miss: Vec<_> = e.iter().filter(|x| !g.contains(x)).map(show_kv).collect();
            let extra: Vec<_> = g.iter().filter(|x| !e.contains(x)).map(show_kv).collect();
            return Some(format!("map {}: missing [{}] unexpected [{}]", i, miss.join(", "), extra.join(", ")));
        }
    }
    None
}

fn roundtrip<P: PsbtV>(ctx: &Ctx, p: &P, w: &WPsbt) -> Res {
    let bytes = p.ser();
    ctx.step();
    ctx.state(&bytes);
    if let Some(d) = diff(&canon_of(P::VER, w), &canon_bytes(P::VER, &bytes, w.o.len())?) {
        return Err(format!("serialised pairs differ: {}", d));
    }
    ctx.validated();
    let q = match P::de(&bytes) {
        Ok(q) => q,
        Err(e) => return Err(format!("own bytes do not parse: {:?} {}", e, hex(&bytes))),
    };
    ctx.step();
    if q != *p {
        return Err(format!("parsed value differs from the one serialised: {}", hex(&bytes)));
    }
    if q.ser() != bytes {
        return Err("an equal PSBT gives other bytes".into());
    }
    let r = match P::de(&w.bytes()) {
        Ok(q) => q,
        Err(e) => return Err(format!("reference bytes do not parse: {:?} {}", e, hex(&w.bytes()))),
    };
    ctx.steps(2);
    if r != *p {
        return Err(format!("reference bytes parse to another value: {}", hex(&w.bytes())));
    }
    if r.ser() != bytes {
        return Err("an equal PSBT gives other bytes".into());
    }
    ctx.validated();
    Ok(())
}

type Sel<P> = Vec<(usize, &'static Atom<P>)>;
fn names<P>(sel: &[(usize, &Atom<P>)]) -> String {
    sel.iter().map(|(i, a)| format!("{}@{}", a.name, i)).collect::<Vec<_>>().join("+")
}
fn rt_case<P: PsbtV>(ctx: &Ctx, tag: &str, ni: usize, no: usize, sel: Sel<P>, both_orders: bool) {
    ctx.case(
        || format!("{} {}x{} {}", tag, ni, no, names(&sel)),
        |ctx| {
            let sel = complete(&sel);
            let (p, w) = build(ni, no, &sel);
            roundtrip(ctx, &p, &w)?;
            if both_orders {
                // The same fields set in the opposite order; only later values of one key would differ.
                let mut rev = sel.clone();
                rev.reverse();
                let (p2, _) = build(ni, no, &rev);
                if p2 != p || p2.ser() != p.ser() {
                    return Err("the order of setting fields changes the bytes".into());
                }
                ctx.step();
            }
            Ok(())
        },
    );
}

pub fn lossless<P: PsbtV>(ctx: &Ctx) {
    let at = P::atoms();
    ctx.bound("field values in the table", at.len());
    for ni in 0..=3 {
        for no in 0..=3 {
            rt_case::<P>(ctx, "bare", ni, no, vec![], false);
            let full = all_atoms::<P>(ni, no, |_| false);
            rt_case(ctx, "full", ni, no, full.clone(), true);
            if ni <= 2 && no <= 2 {
                for skip in 0..full.len() {
                    let mut f = full.clone();
                    f.remove(skip);
                    rt_case(ctx, &format!("full-without-{}", skip), ni, no, f, false);
                }
            }
        }
    }
    for (ni, no) in [(252, 1), (253, 0), (0, 253), (1, 300), (260, 260)] {
        rt_case::<P>(ctx, "many", ni, no, vec![], false);
    }
    // Every value, in every map of its kind; then with everything else set.
    for a in at {
        let n = if a.k == K::G { 1 } else { 3 };
        for ix in 0..n {
            rt_case(ctx, "single", 3, 3, vec![(ix, a)], false);
        }
        let mut f = all_atoms::<P>(1, 1, |b| clash(a, b));
        f.push((0, a));
        rt_case(ctx, "full-with", 1, 1, f, true);
    }
    // One field in one of many maps; many pairs of one field in one map.
    ctx.bound("long PSBTs", "300 inputs and outputs; up to 300 pairs of one field");
    for a in at.iter().filter(|a| a.name.ends_with("#0") || ctx.thorough && !a.rare) {
        for ix in FAR {
            if a.k != K::G || ix == 0 {
                rt_case(ctx, "long", if a.k == K::O { 1 } else { 300 }, if a.k == K::I { 1 } else { 300 }, vec![(ix, a)], false);
            }
        }
    }
    for a in crowded::<P>() {
        for n in [252, 253, 256, 300] {
            ctx.case(
                || format!("{} {}", n, a.name),
                |ctx| {
                    let (_, mut w) = P::base(1, 1);
                    let m = match a.k { K::G => &mut w.g, K::I => &mut w.i[0], K::O => &mut w.o[0] };
                    m.extend((0..n).flat_map(|k| crowd(a, k).unwrap()));
                    let p = P::de(&w.bytes()).map_err(|e| format!("does not parse: {:?}", e))?;
                    roundtrip(ctx, &p, &w)
                },
            );
        }
    }
    // Every pair: in one map, and in two maps.
    for (i, a) in at.iter().enumerate() {
        for b in &at[i + 1..] {
            if a.rare || b.rare {
                continue;
            }
            if !clash(a, b) {
                rt_case(ctx, "pair", 1, 1, vec![(0, a), (0, b)], true);
            }
            if a.k == b.k && a.k != K::G {
                rt_case(ctx, "pair2", 2, 2, vec![(0, a), (1, b)], false);
                rt_case(ctx, "pair2", 2, 2, vec![(1, a), (0, b)], false);
            }
        }
    }
    if ctx.thorough {
        ctx.bound("field combinations", "all triples");
        for (i, a) in at.iter().enumerate() {
            for (j, b) in at.iter().enumerate().skip(i + 1) {
                if a.rare || b.rare || clash(a, b) {
                    continue;
                }
                for c in &at[j + 1..] {
                    if c.rare || clash(a, c) || clash(b, c) {
                        continue;
                    }
                    rt_case(ctx, "triple", 1, 1, vec![(0, a), (0, b), (0, c)], false);
                }
            }
        }
    } else {
        ctx.bound("field combinations", "all pairs; all fields; all fields but one");
    }
    if P::VER == Ver::V0 {
        v0_transactions(ctx);
    }
}

fn v0_transactions(ctx: &Ctx) {
    use bitcoin::*;
    for ver in [0i32, 1, 2, 3, -1, i32::MAX, i32::MIN] {
        for lt in [0u32, 1, 499_999_999, 500_000_000, u32::MAX] {
            for seq in [0u32, 1, 0xffff_fffe, u32::MAX, 1 << 22] {
                for (ni, no) in [(0, 0), (0, 1), (1, 0), (1, 1), (2, 3)] {
                    ctx.case(
                        || format!("tx v{} lt{} seq{} {}x{}", ver, lt, seq, ni, no),
                        |ctx| {
                            let mut tx = base_tx(ni, no);
                            tx.version = transaction::Version(ver);
                            tx.lock_time = absolute::LockTime::from_consensus(lt);
                            for i in &mut tx.input {
                                i.sequence = Sequence(seq);
                                i.previous_output.vout = u32::MAX - lt;
                            }
                            for (k, o) in tx.output.iter_mut().enumerate() {
                                o.value = Amount::from_sat(u64::MAX - k as u64);
                                o.script_pubkey = ScriptBuf::from_bytes(vec![0x6a; 253 * k]);
                            }
                            let (p, w) = v0_from(tx);
                            roundtrip(ctx, &p, &w)
                        },
                    );
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C02, C07

/// Compares the parser's decision with the reference recogniser's.
fn parse_case<P: PsbtV>(ctx: &Ctx, bytes: &[u8]) -> Res {
    let (verdict, w) = judge(P::VER, bytes);
    let got = P::de(bytes);
    ctx.step();
    ctx.state(bytes);
    match (&verdict, &got) {
        (Verdict::Reject(why), Ok(_)) => return Err(format!("accepted although {}: {}", why, hex(bytes))),
        (Verdict::Accept, Err(e)) => {
            ctx.err(e)?;
            return Err(format!("well formed but rejected with {:?}: {}", e, hex(bytes)));
        }
        (_, Err(e)) => {
            ctx.err(e)?;
            ctx.validated();
            if let Verdict::Reject(why) = verdict {
                ctx.outcome(why);
            } else {
                ctx.outcome("left open, rejected");
            }
            return Ok(());
        }
        _ => {}
    }
    let p = got.unwrap();
    let w = w.unwrap();
    let out = p.ser();
    ctx.step();
    if verdict == Verdict::Accept {
        ctx.outcome("accepted");
        if let Some(d) = diff(&canon_of(P::VER, &w), &canon_bytes(P::VER, &out, w.o.len())?) {
            return Err(format!("parsing loses or changes pairs: {}: {}", d, hex(bytes)));
        }
    } else {
        ctx.outcome("left open, accepted");
    }
    match P::de(&out) {
        Err(e) => return Err(format!("accepted bytes re-serialise to bytes that are rejected with {:?}: {}", e, hex(bytes))),
        Ok(q) if q != p => return Err(format!("accepted bytes re-serialise to another value: {}", hex(bytes))),
        Ok(_) => {}
    }
    ctx.step();
    ctx.validated();
    // Order independence: the same maps with their pairs sorted, and in reverse.
    for rev in [false, true] {
        let mut s = w.clone();
        for m in std::iter::once(&mut s.g).chain(s.i.iter_mut()).chain(s.o.iter_mut()) {
            m.sort();
            if rev {
                m.reverse();
            }
        }
        match P::de(&s.bytes()) {
            Ok(q) if q == p => {}
            Ok(_) => return Err(format!("another order of the same pairs gives another value: {}", hex(bytes))),
            Err(e) => return Err(format!("another order of the same pairs is rejected with {:?}: {}", e, hex(bytes))),
        }
        ctx.step();
    }
    Ok(())
}

#[derive(Clone, Debug)]
enum Op {
    Del,
    Dup(u8),
    KPush(u8),
    KPop,
    KEmpty,
    KSet(usize, u8),
    VPush(u8),
    VPop,
    VPopFront,
    VEmpty,
    VSet(usize, u8),
    VReplace(Vec<u8>),
    Type(u8),
    Move(usize),
    Swap(usize),
}
#[derive(Clone, Debug)]
struct Edit { m: usize, j: usize, op: Op }

impl Edit {
    fn id(&self) -> String { format!("{}.{}.{:?}", self.m, self.j, self.op).replace(' ', "") }
    fn apply(&self, w: &mut WPsbt) -> bool {
        if self.m >= w.n_maps() {
            return false;
        }
        if let Op::Move(to) = self.op {
            if to >= w.n_maps() || to == self.m || self.j >= w.map_mut(self.m).len() {
                return false;
            }
            let p = w.map_mut(self.m).remove(self.j);
            w.map_mut(to).push(p);
            return true;
        }
        let m = w.map_mut(self.m);
        if self.j >= m.len() {
            return false;
        }
        let n = m.len();
        let p = &mut m[self.j];
        match &self.op {
            Op::Del => {
                m.remove(self.j);
            }
            Op::Dup(how) => {
                let mut q = p.clone();
                match how {
                    0 => m.push(q),
                    1 => m.insert(0, q),
                    2 => m.insert(self.j, q),
                    _ => {
                        match q.v.first_mut() {
                            Some(x) => *x ^= 1,
                            None => q.v.push(1),
                        }
                        m.push(q)
                    }
                }
            }
            Op::KPush(b) => p.kd.push(*b),
            Op::KPop => {
                if p.kd.pop().is_none() {
                    return false;
                }
            }
            Op::KEmpty => {
                if p.kd.len() < 2 {
                    return false;
                }
                p.kd.clear()
            }
            Op::KSet(i, b) => {
                if *i >= p.kd.len() || p.kd[*i] == *b {
                    return false;
                }
                p.kd[*i] = *b
            }
            Op::VPush(b) => p.v.push(*b),
            Op::VPop => {
                if p.v.pop().is_none() {
                    return false;
                }
            }
            Op::VPopFront => {
                if p.v.len() < 2 {
                    return false;
                }
                p.v.remove(0);
            }
            Op::VEmpty => {
                if p.v.len() < 2 {
                    return false;
                }
                p.v.clear()
            }
            Op::VSet(i, b) => {
                if *i >= p.v.len() || p.v[*i] == *b {
                    return false;
                }
                p.v[*i] = *b
            }
            Op::VReplace(v) => {
                if p.v == *v {
                    return false;
                }
                p.v = v.clone()
            }
            Op::Type(t) => {
                if p.t == *t {
                    return false;
                }
                p.t = *t
            }
            Op::Swap(o) => {
                if *o >= n || *o == self.j {
                    return false;
                }
                m.swap(self.j, *o)
            }
            Op::Move(_) => unreachable!(),
        }
        true
    }
}

fn structural(w: &WPsbt, m: usize, j: usize) -> Vec<Edit> {
    let mut ops = vec![
        Op::Del, Op::Dup(0), Op::Dup(1), Op::Dup(2), Op::Dup(3), Op::KPush(0), Op::KPush(1), Op::KPop, Op::KEmpty,
        Op::VPush(0), Op::VPush(1), Op::VPop, Op::VPopFront, Op::VEmpty,
    ];
    for to in 0..w.n_maps() {
        ops.push(Op::Move(to));
    }
    ops.into_iter().map(|op| Edit { m, j, op }).collect()
}
fn bytewise(p: &Kv, m: usize, j: usize) -> Vec<Edit> {
    let mut ops = vec![];
    let pos = |n: usize| -> Vec<usize> {
        let mut v: Vec<usize> = (0..n.min(72)).collect();
        for i in n.saturating_sub(8)..n {
            if !v.contains(&i) {
                v.push(i)
            }
        }
        v
    };
    for i in pos(p.kd.len()) {
        let c = p.kd[i];
        for b in [0, 1, 0x7f, 0x80, 0xff, c ^ 1, c ^ 0x80] {
            ops.push(Op::KSet(i, b));
        }
        if i == 0 {
            for b in 2..=9 {
                ops.push(Op::KSet(0, b));
            }
            for b in 0xc0..=0xfe {
                ops.push(Op::KSet(0, b));
            }
        }
    }
    for i in pos(p.v.len()) {
        let c = p.v[i];
        for b in [0, 1, 2, 0x7f, 0x80, 0xfd, 0xff, c ^ 1, c ^ 0x80, c.wrapping_add(1), c.wrapping_sub(1)] {
            ops.push(Op::VSet(i, b));
        }
    }
    if let Some(last) = p.v.len().checked_sub(1) {
        for b in 0..=255u8 {
            ops.push(Op::VSet(last, b));
        }
    }
    for n in [1usize, 2, 3, 4, 5, 7, 8, 9, 31, 32, 33, 34, 63, 64, 65, 66, 67] {
        for fill in [0u8, 1, 2, 0xff] {
            ops.push(Op::VReplace(vec![fill; n]));
        }
    }
    for n in [0u32, 1, 2, 3, 499_999_999, 500_000_000, 500_000_001, u32::MAX] {
        ops.push(Op::VReplace(n.to_le_bytes().to_vec()));
    }
    ops.into_iter().map(|op| Edit { m, j, op }).collect()
}

fn edit_case<P: PsbtV>(ctx: &Ctx, tag: &str, w: &WPsbt, edits: &[&Edit]) {
    ctx.case(
        || format!("{} {}", tag, edits.iter().map(|e| e.id()).collect::<Vec<_>>().join(" ")),
        |ctx| {
            let mut w = w.clone();
            for e in edits {
                if !e.apply(&mut w) {
                    ctx.outcome("edit does not apply");
                    return Ok(());
                }
            }
            parse_case::<P>(ctx, &w.bytes())
        },
    );
}

fn raw_case<P: PsbtV>(ctx: &Ctx, id: impl Fn() -> String, bytes: impl FnOnce() -> Vec<u8>) {
    ctx.case(id, |ctx| parse_case::<P>(ctx, &bytes()));
}

pub fn parser<P: PsbtV>(ctx: &Ctx) {
    let w = |ni, no, sel: &[(usize, &'static Atom<P>)]| build::<P>(ni, no, &complete(sel)).1;
    let full1 = w(1, 1, &all_atoms::<P>(1, 1, |_| false));
    let full2 = w(2, 2, &all_atoms::<P>(2, 2, |a| a.k == K::G));
    let bare: Vec<(String, WPsbt)> = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (2, 2)]
        .iter()
        .map(|(i, o)| (format!("bare{}x{}", i, o), w(*i, *o, &[])))
        .collect();
    // Unchanged, and every order of small maps.
    for (n, b) in bare.iter().chain([&("full1".to_string(), full1.clone()), &("full2".to_string(), full2.clone())]) {
        raw_case::<P>(ctx, || format!("{} unchanged", n), || b.bytes());
        for m in 0..b.n_maps() {
            let len = b.maps().nth(m).unwrap().len();
            if len <= 5 {
                for pm in perms(len) {
                    raw_case::<P>(
                        ctx,
                        || format!("{} map {} order {:?}", n, m, pm),
                        || {
                            let mut c = b.clone();
                            let old = c.map_mut(m).clone();
                            *c.map_mut(m) = pm.iter().map(|i| old[*i].clone()).collect();
                            c.bytes()
                        },
                    );
                }
            } else {
                for i in 0..len {
                    for j in 0..i {
                        edit_case::<P>(ctx, &format!("{} swap", n), b, &[&Edit { m, j, op: Op::Swap(i) }]);
                    }
                }
            }
        }
    }
    // Single edits everywhere.
    let mut corpus = bare.clone();
    corpus.push(("full1".into(), full1.clone()));
    corpus.push(("full2".into(), full2));
    for (n, b) in &corpus {
        for m in 0..b.n_maps() {
            let pairs = b.maps().nth(m).unwrap();
            for j in 0..pairs.len() {
                for e in structural(b, m, j) {
                    edit_case::<P>(ctx, n, b, &[&e]);
                }
                if n.starts_with("full1") || n.starts_with("bare1x1") {
                    for e in bytewise(&pairs[j], m, j) {
                        edit_case::<P>(ctx, n, b, &[&e]);
                    }
                    for t in 0..=255u8 {
                        edit_case::<P>(ctx, n, b, &[&Edit { m, j, op: Op::Type(t) }]);
                    }
                }
            }
        }
    }
    // Every value of the table alone in a small PSBT: duplicates, exclusions, wrong lengths, other maps.
    for a in P::atoms() {
        if a.rare && (!ctx.thorough || a.kv.v.len() + a.kv.kd.len() > 300) {
            continue;
        }
        let b = w(1, 1, &[(0, a)]);
        let m = match a.k {
            K::G => 0,
            K::I => 1,
            K::O => 2,
        };
        let pairs = b.maps().nth(m).unwrap().clone();
        for j in 0..pairs.len() {
            for e in structural(&b, m, j) {
                edit_case::<P>(ctx, &a.name, &b, &[&e]);
            }
            if ctx.thorough || pairs[j].t == a.kv.t {
                for e in bytewise(&pairs[j], m, j) {
                    edit_case::<P>(ctx, &a.name, &b, &[&e]);
                }
            }
        }
    }
    // Every key type with every shape of key data and value in every kind of map.
    let kds: Vec<Vec<u8>> = vec![
        vec![], vec![0], vec![1, 2], xonly(1).serialize().to_vec(), spk_(1).serialize().to_vec(),
        { let mut b = xonly(1).serialize().to_vec(); b.extend([7; 32]); b },
        vec![3; 20], vec![4; 32], control_bytes(1, 0, 0xc0, false), xpub(1).encode().to_vec(),
        upk(1).to_bytes(),
    ];
    let vals: Vec<Vec<u8>> = vec![
        vec![], vec![0], vec![1], vec![2, 0], vec![0; 4], vec![2, 0, 0, 0], 500_000_000u32.to_le_bytes().to_vec(),
        vec![9, 0, 0, 0, 1, 0, 0, 0], vec![1; 32], xonly(1).serialize().to_vec(), spk_(1).serialize().to_vec(),
        vec![5; 63], vec![5; 64], vec![1; 65], vec![2; 66], vec![0, 0xc0, 1, 0x51], vec![0x51, 0xc0], bitcoin::consensus::serialize(&base_tx(1, 1)),
        bitcoin::consensus::serialize(&txo(1, p2wpkh(1))), vec![1, 1, 5], upk(1).to_bytes(),
    ];
    let b11 = w(1, 1, &[]);
    for m in 0..3 {
        for t in 0..=255u8 {
            for (x, kd) in kds.iter().enumerate() {
                for (y, v) in vals.iter().enumerate() {
                    raw_case::<P>(
                        ctx,
                        || format!("insert map {} type {:02x} key {} value {}", m, t, x, y),
                        || {
                            let mut c = b11.clone();
                            c.map_mut(m).push(kv(t, kd.clone(), v.clone()));
                            c.bytes()
                        },
                    );
                }
            }
        }
    }
    // Map counts, separators, magic, trailing bytes, non-minimal lengths.
    let mut framed: Vec<(String, Vec<u8>)> = vec![];
    for (n, b) in &corpus {
        let maps: Vec<WMap> = b.maps().cloned().collect();
        for i in 0..maps.len() {
            let mut c = maps.clone();
            c.remove(i);
            framed.push((format!("{} without map {}", n, i), enc_maps(c.iter())));
            let mut c = maps.clone();
            c.insert(i + 1, vec![]);
            framed.push((format!("{} extra map {}", n, i), enc_maps(c.iter())));
            let mut c = maps.clone();
            c.insert(i + 1, maps[i].clone());
            framed.push((format!("{} repeated map {}", n, i), enc_maps(c.iter())));
            for k in 0..i {
                let mut c = maps.clone();
                c.swap(i, k);
                framed.push((format!("{} swapped maps {} {}", n, i, k), enc_maps(c.iter())));
                // Two maps merged into one.
                let mut c = maps.clone();
                let mut x = c.remove(i);
                c[k].append(&mut x);
                framed.push((format!("{} merged maps {} {}", n, i, k), enc_maps(c.iter())));
            }
        }
        for t in [vec![0u8], vec![1], vec![0, 0], vec![0xff], b"psbt\xff".to_vec(), vec![1, 0, 0]] {
            let mut x = b.bytes();
            x.extend(&t);
            framed.push((format!("{} trailing {}", n, hex(&t)), x));
        }
        let x = b.bytes();
        framed.push((format!("{} unterminated", n), x[..x.len() - 1].to_vec()));
        for i in 0..5 {
            for d in [1u8, 0x20, 0x80] {
                let mut y = x.clone();
                y[i] ^= d;
                framed.push((format!("{} magic {} {}", n, i, d), y));
            }
        }
        framed.push((format!("{} no magic", n), x[5..].to_vec()));
        framed.push((format!("{} short magic", n), x[..4].to_vec()));
        framed.push((format!("{} magic only", n), x[..5].to_vec()));
        framed.push((format!("{} two magics", n), [b"psbt\xff", &x[..]].concat()));
        // Counts.
        if P::VER == Ver::V2 {
            for t in [4u8, 5] {
                for v in [
                    vec![0u8], vec![1], vec![2], vec![3], vec![], vec![0xfc], vec![0xfd, 1, 0], vec![0xfd, 0xfd, 0], vec![0xfd, 1],
                    vec![0xfe, 1, 0, 0, 0], vec![0xff, 1, 0, 0, 0, 0, 0, 0, 0], vec![0xff; 9], vec![1, 0], vec![2, 0, 0, 0],
                    vec![0xfe, 0, 0, 1, 0], vec![0xff, 0, 0, 0, 0, 1, 0, 0, 0],
                ] {
                    let mut c = b.clone();
                    if let Some(p) = c.g.iter_mut().find(|p| p.t == t) {
                        p.v = v.clone();
                    }
                    framed.push((format!("{} count {} = {}", n, t, hex(&v)), c.bytes()));
                }
            }
        }
    }
    // Non-minimal and wrong lengths of each key and value of the bare PSBT.
    for (n, b) in &bare {
        let total: usize = b.maps().map(|m| m.len()).sum();
        for which in 0..total {
            for form in 0..8 {
                framed.push((format!("{} length form {} of pair {}", n, form, which), length_forms(b, which, form)));
            }
        }
    }
    for (n, x) in &framed {
        raw_case::<P>(ctx, || n.clone(), || x.clone());
    }
    if P::VER == Ver::V0 {
        v0_tx_cases(ctx);
    }
    // Long PSBTs: an edit in one of many maps, or among many pairs of one field.
    for a in P::atoms().iter().filter(|a| a.name.ends_with("#0") && a.k != K::G) {
        for ix in [253, 256, 299] {
            let m = if a.k == K::I { 1 + ix } else { 2 + ix };
            let (ni, no) = if a.k == K::I { (300, 1) } else { (1, 300) };
            for e in 0..8 {
                ctx.case(
                    || format!("long {} in {} edit {}", a.name, ix, e),
                    |ctx| {
                        let mut w = build::<P>(ni, no, &complete(&[(ix, a)])).1;
                        let j = w.map_mut(m).iter().position(|p| p.t == a.kv.t && p.kd == a.kv.kd).unwrap_or(0);
                        let op = match e {
                            0 => Op::Dup(0),
                            1 => Op::Dup(3),
                            2 => Op::Del,
                            3 => Op::KPush(1),
                            4 => Op::VPush(0),
                            5 => Op::VEmpty,
                            6 => Op::Move(if m == 1 { 2 } else { 1 }),
                            _ => Op::Type(0x77),
                        };
                        (Edit { m, j, op }).apply(&mut w);
                        parse_case::<P>(ctx, &w.bytes())
                    },
                );
            }
        }
    }
    for a in crowded::<P>() {
        for n in [254u32, 300] {
            let w = {
                let mut w = P::base(2, 2).1;
                let m = match a.k { K::G => &mut w.g, K::I => &mut w.i[1], K::O => &mut w.o[1] };
                m.extend((0..n).flat_map(|k| crowd(a, k).unwrap()));
                w
            };
            let m = match a.k { K::G => 0, K::I => 2, K::O => 4 };
            edit_case::<P>(ctx, &format!("{} {}", n, a.name), &w, &[]);
            for j in [0, 1, 127, 252, 253, 255, 256, 299] {
                if j >= n as usize {
                    continue;
                }
                let j = w.maps().nth(m).unwrap().len() - 1 - j;
                for op in [Op::Dup(0), Op::Dup(1), Op::Dup(2), Op::Dup(3), Op::Del, Op::KPop, Op::Type(0x77), Op::Move(if m == 2 { 1 } else { 2 })] {
                    edit_case::<P>(ctx, &format!("{} {}", n, a.name), &w, &[&Edit { m, j, op }]);
                }
            }
        }
    }
    // Pairs of structural edits.
    let mut two: Vec<(String, WPsbt)> = vec![("bare1x1".into(), b11.clone()), ("bare2x1".into(), w(2, 1, &[]))];
    let small: Vec<(usize, &'static Atom<P>)> = {
        let mut v: Vec<(usize, &'static Atom<P>)> = vec![];
        let fields: &[&str] = if P::VER == Ver::V2 {
            &["min_time", "min_height", "sequence", "sp_ecdh_shares", "sp_dleq_proofs", "sp_v0_info", "sp_v0_label", "unknown", "proprietary"]
        } else {
            &["partial_sigs", "tap_script_sigs", "bip32_derivation", "unknown", "proprietary", "xpubs", "tap_tree"]
        };
        for f in fields {
            for k in [K::G, K::I, K::O] {
                if let Some(a) = P::atoms().iter().find(|a| a.field == *f && a.k == k) {
                    v.push((0, a));
                }
            }
        }
        v
    };
    two.push(("small".into(), w(1, 1, &small)));
    if ctx.thorough {
        two.push(("full1".into(), full1));
    }
    for (n, b) in &two {
        let mut edits = vec![];
        for m in 0..b.n_maps() {
            for j in 0..b.maps().nth(m).unwrap().len() {
                edits.extend(structural(b, m, j));
            }
        }
        for (i, e) in edits.iter().enumerate() {
            for f in &edits[i..] {
                edit_case::<P>(ctx, &format!("two edits {}", n), b, &[e, f]);
            }
        }
    }
    ctx.bound("edits", "all single edits of the corpus; all pairs of structural edits of the small PSBTs");
}

/// Bytes of `b` with the key or value length of pair `which` written in another form.
fn length_forms(b: &WPsbt, which: usize, form: usize) -> Vec<u8> {
    let mut out = b"psbt\xff".to_vec();
    let mut n = 0;
    for m in b.maps() {
        for p in m {
            if n == which {
                let (kl, vl) = (p.kd.len() as u64 + 1, p.v.len() as u64);
                let alt = |l: u64, f: usize| -> Vec<u8> {
                    match f {
                        0 => [vec![0xfd], (l as u16).to_le_bytes().to_vec()].concat(),
                        1 => [vec![0xfe], (l as u32).to_le_bytes().to_vec()].concat(),
                        2 => [vec![0xff], l.to_le_bytes().to_vec()].concat(),
                        _ => cs(l + 1),
                    }
                };
                out.extend(if form < 4 { alt(kl, form) } else { cs(kl) });
                out.push(p.t);
                out.extend(&p.kd);
                out.extend(if form >= 4 { alt(vl, form - 4) } else { cs(vl) });
                out.extend(&p.v);
            } else {
                enc_kv(p, &mut out);
            }
            n += 1;
        }
        out.push(0);
    }
    out
}

fn v0_tx_cases(ctx: &Ctx) {
    use bitcoin::*;
    type P = psbt_v2::v0::Psbt;
    for (ni, no) in [(0, 0), (0, 1), (1, 0), (1, 1), (2, 2)] {
        for bad in 0..12 {
            ctx.case(
                || format!("unsigned tx {}x{} form {}", ni, no, bad),
                |ctx| {
                    let mut tx = base_tx(ni, no);
                    let last = ni.saturating_sub(1);
                    let mut maps_in = ni;
                    match bad {
                        1 if ni > 0 => tx.input[last].script_sig = script(1),
                        2 if ni > 0 => tx.input[last].witness = Witness::from_slice(&[vec![1u8]]),
                        3 if ni > 0 => tx.input[0].script_sig = script(1),
                        4 if ni > 0 => tx.input[0].witness = Witness::from_slice(&[Vec::<u8>::new()]),
                        5 => maps_in = ni + 1,
                        _ => {}
                    }
                    let mut raw = if bad == 6 || bad == 2 || bad == 4 { consensus::serialize(&tx) } else { legacy_ser(&tx) };
                    match bad {
                        7 => raw.push(0),
                        8 => {
                            raw.pop();
                        }
                        9 => raw = vec![],
                        10 => {
                            // segwit marker and flag with empty witnesses
                            let mut r = raw[..4].to_vec();
                            r.extend([0, 1]);
                            r.extend(&raw[4..raw.len() - 4]);
                            r.extend(vec![0; ni]);
                            r.extend(&raw[raw.len() - 4..]);
                            raw = r;
                        }
                        11 => raw.extend([0, 0, 0, 0]),
                        _ => {}
                    }
                    let w = WPsbt { g: vec![kv(0, [], raw)], i: vec![vec![]; maps_in], o: vec![vec![]; no] };
                    parse_case::<P>(ctx, &w.bytes())
                },
            );
        }
    }
    for v in [0u32, 1, 2, 3, u32::MAX] {
        for extra in [vec![], vec![0u8]] {
            for kd in [vec![], vec![0u8]] {
                ctx.case(
                    || format!("version field {} {} {}", v, extra.len(), kd.len()),
                    |ctx| {
                        let mut w = v0_from(base_tx(1, 1)).1;
                        let mut val = v.to_le_bytes().to_vec();
                        val.extend(&extra);
                        w.g.push(kv(0xfb, kd.clone(), val));
                        parse_case::<P>(ctx, &w.bytes())
                    },
                );
            }
        }
    }
}

// ---------------------------------------------------------------- C04

/// Largest single request a parse of `len` bytes may make: a key may declare up to 4,000,000 bytes, and
/// rust-bitcoin reserves up to 8 bytes for each of up to 4,000,000 declared witness elements, before the decoder
/// knows that the input is too short.
fn alloc_limit(len: usize) -> usize { 34_000_000 + 64 * len }

fn hostile<P: PsbtV>(ctx: &Ctx, bytes: &[u8]) -> Res {
    let (r, peak) = max_alloc(|| P::de(bytes));
    ctx.step();
    if peak > alloc_limit(bytes.len()) {
        return Err(format!("one allocation of {} bytes for an input of {} bytes: {}", peak, bytes.len(), hex(bytes)));
    }
    match r {
        Err(e) => {
            ctx.err(&e)?;
            ctx.outcome("rejected");
            Ok(())
        }
        Ok(p) => {
            ctx.outcome("accepted");
            ctx.state(bytes);
            let out = p.ser();
            match P::de(&out) {
                Ok(q) if q == p && q.ser() == out => {
                    ctx.steps(2);
                    ctx.validated();
                    Ok(())
                }
                Ok(_) => Err(format!("re-serialises to another value: {}", hex(bytes))),
                Err(e) => Err(format!("re-serialises to bytes that do not parse ({:?}): {}", e, hex(bytes))),
            }
        }
    }
}

fn hostile_both(ctx: &Ctx, bytes: &[u8]) -> Res {
    hostile::<psbt_v2::v2::Psbt>(ctx, bytes)?;
    hostile::<psbt_v2::v0::Psbt>(ctx, bytes)
}

const INTS: [u64; 22] = [
    0, 1, 2, 0x7f, 0x80, 0xfc, 0xfd, 0xff, 0x100, 0x7fff, 0xffff, 0x1_0000, 3_999_999, 4_000_000, 4_000_001, 0x7fff_ffff,
    0xffff_ffff, 0x1_0000_0000, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, 0xffff_ffff_ffff_fffe, u64::MAX,
];

fn hostile_corpus<P: PsbtV>(ctx: &Ctx) {
    let tag = format!("{:?}", P::VER);
    let mut corpus: Vec<(String, WPsbt)> = vec![];
    for (i, o) in [(0, 0), (1, 1), (2, 2)] {
        corpus.push((format!("{} bare{}x{}", tag, i, o), build::<P>(i, o, &[]).1));
    }
    let full = build::<P>(1, 1, &complete(&all_atoms::<P>(1, 1, |_| false))).1;
    corpus.push((format!("{} full", tag), full));
    for a in P::atoms() {
        if !a.rare {
            corpus.push((format!("{} {}", tag, a.name), build::<P>(1, 1, &complete(&[(0, a)])).1));
        }
    }
    for (n, w) in &corpus {
        let b = w.bytes();
        // Every truncation.
        let single = n.contains('#');
        let from = if single { 5 } else { 0 };
        for cut in from..b.len() {
            ctx.case(|| format!("{} cut {}", n, cut), |ctx| hostile_both(ctx, &b[..cut]));
        }
        // Every byte replaced.
        let subs: &[u8] = if ctx.thorough { &[0, 1, 2, 0x20, 0x7f, 0x80, 0xc0, 0xfb, 0xfc, 0xfd, 0xfe, 0xff] } else { &[0, 1, 0x80, 0xfd, 0xff] };
        for i in 0..b.len() {
            for s in subs {
                if b[i] != *s {
                    ctx.case(
                        || format!("{} byte {} = {:02x}", n, i, s),
                        |ctx| {
                            let mut c = b.clone();
                            c[i] = *s;
                            hostile_both(ctx, &c)
                        },
                    );
                }
            }
        }
        if ctx.thorough {
            for i in 0..b.len() {
                for (op, what) in [(0, "delete"), (1, "repeat")] {
                    ctx.case(
                        || format!("{} {} byte {}", n, what, i),
                        |ctx| {
                            let mut c = b.clone();
                            if op == 0 { c.remove(i); } else { c.insert(i, b[i]); }
                            hostile_both(ctx, &c)
                        },
                    );
                }
            }
        }
        // Every declared length and every value replaced by a boundary integer.
        let total: usize = w.maps().map(|m| m.len()).sum();
        for which in 0..total {
            for x in INTS {
                for form in 0..5 {
                    ctx.case(
                        || format!("{} pair {} form {} = {}", n, which, form, x),
                        |ctx| hostile_both(ctx, &with_int(w, which, form, x)),
                    );
                }
            }
        }
    }
    // Values that hold their own lengths: a boundary integer at every position of each value.
    for a in P::atoms() {
        if a.rare {
            continue;
        }
        for pos in 0..=a.kv.v.len().min(if ctx.thorough { 400 } else { 90 }) {
            for x in INTS {
                for form in [0, 1] {
                    ctx.case(
                        || format!("{} {} value integer {} form {} at {}", tag, a.name, x, form, pos),
                        |ctx| {
                            let mut w = build::<P>(1, 1, &complete(&[(0, a)])).1;
                            let m = match a.k {
                                K::G => &mut w.g,
                                K::I => &mut w.i[0],
                                K::O => &mut w.o[0],
                            };
                            if let Some(p) = m.iter_mut().find(|p| p.t == a.kv.t && p.kd == a.kv.kd) {
                                let mut v = p.v[..pos].to_vec();
                                v.extend(cs(x));
                                if form == 1 && pos < p.v.len() {
                                    v.extend(&p.v[pos + 1..]);
                                }
                                p.v = v;
                            }
                            hostile_both(ctx, &w.bytes())
                        },
                    );
                }
            }
        }
    }
}
fn with_int(w: &WPsbt, which: usize, form: usize, x: u64) -> Vec<u8> {
    let mut out = b"psbt\xff".to_vec();
    let mut n = 0;
    for m in w.maps() {
        for p in m {
            if n == which {
                match form {
                    0 => {
                        out.extend(cs(x));
                        out.push(p.t);
                        out.extend(&p.kd);
                        out.extend(cs(p.v.len() as u64));
                        out.extend(&p.v);
                    }
                    1 => {
                        out.extend(cs(p.kd.len() as u64 + 1));
                        out.push(p.t);
                        out.extend(&p.kd);
                        out.extend(cs(x));
                        out.extend(&p.v);
                    }
                    2 => {
                        let c = cs(x);
                        enc_kv(&kv(p.t, p.kd.clone(), c), &mut out);
                    }
                    3 => {
                        // key data starts with an integer (proprietary prefix length)
                        let mut kd = cs(x);
                        kd.extend(&p.kd);
                        enc_kv(&kv(p.t, kd, p.v.clone()), &mut out);
                    }
                    _ => {
                        // ends right after the length
                        out.extend(cs(p.kd.len() as u64 + 1));
                        out.push(p.t);
                        out.extend(&p.kd);
                        out.extend(cs(x));
                        return out;
                    }
                }
            } else {
                enc_kv(p, &mut out);
            }
            n += 1;
        }
        out.push(0);
    }
    out
}

pub fn hostile_bytes(ctx: &Ctx) {
    // All short strings over a structural alphabet, after the magic and without it.
    let alpha: &[u8] = &[0x00, 0x01, 0x02, 0x04, 0x05, 0x06, 0xfb, 0xfc, 0xfd, 0xff];
    let depth = if ctx.thorough { 7 } else { 5 };
    ctx.bound("short strings", format!("all up to {} bytes over {} symbols, after the magic", depth, alpha.len()));
    for n in 0..=depth {
        let total = (alpha.len() as u64).pow(n as u32);
        // Blocks of 1000 strings per case.
        let mut lo = 0;
        while lo < total {
            let hi = (lo + 1000).min(total);
            ctx.case(
                || format!("strings length {} numbers {}..{}", n, lo, hi),
                |ctx| {
                    for x in lo..hi {
                        let mut b = b"psbt\xff".to_vec();
                        let mut y = x;
                        for _ in 0..n {
                            b.push(alpha[(y % alpha.len() as u64) as usize]);
                            y /= alpha.len() as u64;
                        }
                        hostile_both(ctx, &b)?;
                    }
                    Ok(())
                },
            );
            lo = hi;
        }
    }
    for n in 0..=2usize {
        ctx.case(
            || format!("all byte strings of length {}", n),
            |ctx| {
                for x in 0..(1u32 << (8 * n)) {
                    hostile_both(ctx, &x.to_le_bytes()[..n])?;
                    let mut b = b"psbt\xff".to_vec();
                    b.extend(&x.to_le_bytes()[..n]);
                    hostile_both(ctx, &b)?;
                }
                Ok(())
            },
        );
    }
    hostile_corpus::<psbt_v2::v2::Psbt>(ctx);
    hostile_corpus::<psbt_v2::v0::Psbt>(ctx);
    // Large declared counts over otherwise well-formed bytes.
    for (a, b) in [(u64::MAX, 0), (0, u64::MAX), (u64::MAX, u64::MAX), (u64::MAX, 1), (1 << 40, 1 << 40), (0, 1 << 62), (1 << 63, 1 << 63), (1 << 32, 2)] {
        for tail in 0..3 {
            ctx.case(
                || format!("counts {} {} tail {}", a, b, tail),
                |ctx| {
                    let mut w = build::<psbt_v2::v2::Psbt>(1, 1, &[]).1;
                    for p in &mut w.g {
                        if p.t == 4 {
                            p.v = cs(a)
                        }
                        if p.t == 5 {
                            p.v = cs(b)
                        }
                    }
                    let mut x = w.bytes();
                    x.extend(vec![0; tail * 1000]);
                    hostile_both(ctx, &x)
                },
            );
        }
    }
    // Deep or wide structures.
    for n in [10usize, 1000, 100_000] {
        ctx.case(
            || format!("tap tree of {} leaves in one line", n),
            |ctx| {
                for d in [0u8, 1, 127, 128, 129, 255] {
                    let mut v = vec![];
                    for _ in 0..n {
                        v.extend([d, 0xc0, 0]);
                    }
                    for base in 0..2 {
                        let mut w = if base == 0 { build::<psbt_v2::v2::Psbt>(1, 1, &[]).1 } else { build::<psbt_v2::v0::Psbt>(1, 1, &[]).1 };
                        w.o[0].push(kv(6, [], v.clone()));
                        hostile_both(ctx, &w.bytes())?;
                    }
                }
                Ok(())
            },
        );
    }
    crate::c_text::hostile_text(ctx);
}
