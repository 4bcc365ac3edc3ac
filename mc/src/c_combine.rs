//! K01, K02: combining.
use crate::c_codec::*;
use crate::fields::*;
use crate::model::*;
use crate::run::*;
use crate::util::*;
use crate::wire::*;
use psbt_v2::{v0, v2};

pub trait CombineV: PsbtV {
    type CE: std::error::Error + 'static;
    fn combine2(a: Self, b: Self) -> Result<Self, Self::CE>;
    /// Another public way to the same thing.
    fn combine_alt(a: Self, b: Self) -> Result<Self, Self::CE>;
    /// Identity of the described transaction; `None` when there is none.
    fn ident(w: &WPsbt) -> Option<Vec<u8>>;
}
impl CombineV for v2::Psbt {
    type CE = v2::CombineError;
    fn combine2(a: Self, b: Self) -> Result<Self, Self::CE> { v2::combine(a, b) }
    fn combine_alt(a: Self, b: Self) -> Result<Self, Self::CE> { a.combine_with(b) }
    fn ident(w: &WPsbt) -> Option<Vec<u8>> { id_of(w).map(|t| t.to_string().into_bytes()) }
}
impl CombineV for v0::Psbt {
    type CE = v0::bitcoin::Error;
    fn combine2(mut a: Self, b: Self) -> Result<Self, Self::CE> { a.combine(b).map(|()| a) }
    fn combine_alt(mut a: Self, b: Self) -> Result<Self, Self::CE> {
        let c = b.clone();
        a.combine(b)?;
        // A second time must change nothing.
        let before = a.clone();
        a.combine(c)?;
        assert_eq!(before, a, "combining again with the same PSBT changes the result");
        Ok(a)
    }
    fn ident(w: &WPsbt) -> Option<Vec<u8>> { get(&w.g, 0).map(|v| v.to_vec()) }
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum Want { Refuse, Union, Either }

fn suffix(long: &[u8], short: &[u8]) -> bool {
    // Key sources: fingerprint and path. Only the paths are compared.
    long.len() > short.len() && long[4..].ends_with(&short[4..])
}

fn want<P: CombineV>(a: &WPsbt, b: &WPsbt) -> Want {
    let (ia, ib) = (P::ident(a), P::ident(b));
    if ia.is_none() || ia != ib {
        return Want::Refuse;
    }
    for x in a.g.iter().filter(|p| p.t == 1 && !p.kd.is_empty()) {
        if let Some(y) = b.g.iter().find(|q| q.t == x.t && q.kd == x.kd) {
            if x.v != y.v && !suffix(&x.v, &y.v) && !suffix(&y.v, &x.v) {
                return Want::Refuse;
            }
        }
    }
    // A choice between conflicting lock times can change the transaction.
    let lock = |p: &Kv| (0x11..=0x12).contains(&p.t);
    for (m, n) in a.i.iter().zip(&b.i) {
        for x in m.iter().filter(|p| lock(p)) {
            if n.iter().any(|y| y.t == x.t && y.v != x.v) {
                return Want::Either;
            }
        }
    }
    if P::VER == Ver::V2 {
        if let (Some(x), Some(y)) = (get(&a.g, 3), get(&b.g, 3)) {
            if x != y {
                return Want::Either;
            }
        }
        let mut u = a.clone();
        for (m, n) in u.i.iter_mut().zip(&b.i) {
            for p in n.iter().filter(|p| lock(p)) {
                if !m.iter().any(|q| q.t == p.t) {
                    m.push(p.clone());
                }
            }
        }
        if P::ident(&u) != ia {
            return Want::Refuse;
        }
    }
    Want::Union
}

fn conflicts(a: &[Vec<Kv>], b: &[Vec<Kv>]) -> bool {
    a.iter().zip(b).any(|(m, n)| m.iter().any(|x| n.iter().any(|y| y.t == x.t && y.kd == x.kd && y.v != x.v)))
}

fn union_ok<P: CombineV>(wa: &WPsbt, wb: &WPsbt, r: &P) -> Res {
    let (ca, cb) = (canon_of(P::VER, wa), canon_of(P::VER, wb));
    let bytes = r.ser();
    let got = canon_bytes(P::VER, &bytes, wa.o.len())?;
    if got.len() != ca.len() {
        return Err(format!("result has {} maps", got.len()));
    }
    for (ix, ((ma, mb), mr)) in ca.iter().zip(&cb).zip(&got).enumerate() {
        for p in ma.iter().chain(mb) {
            if !mr.iter().any(|q| q.t == p.t && q.kd == p.kd) {
                // The default modifiable flags have no pair of their own.
                let flags = ix == 0 && p.t == 6;
                // Nor has an empty script beside silent payment information.
                let script = SP && ix > wa.i.len() && p.t == 4 && p.v.is_empty() && mr.iter().any(|q| q.t == 9);
                if !(P::VER == Ver::V2 && (flags || script)) {
                    return Err(format!("map {}: {} is lost", ix, show_kv(p)));
                }
            }
        }
        for p in mr {
            if !ma.contains(p) && !mb.contains(p) {
                return Err(format!("map {}: {} is in neither operand", ix, show_kv(p)));
            }
        }
        for w in mr.windows(2) {
            if w[0].t == w[1].t && w[0].kd == w[1].kd {
                return Err(format!("map {}: {} twice", ix, show_kv(&w[0])));
            }
        }
    }
    match P::de(&bytes) {
        Ok(q) if q == *r => Ok(()),
        Ok(_) => Err("the result's bytes parse to another value".into()),
        Err(e) => Err(format!("the result's bytes do not parse: {:?}", e)),
    }
}

type Side<P> = (P, WPsbt);

fn pair_check<P: CombineV>(ctx: &Ctx, a: &Side<P>, b: &Side<P>) -> Res {
    let w = want::<P>(&a.1, &b.1);
    let ab = P::combine2(a.0.clone(), b.0.clone());
    let ba = P::combine2(b.0.clone(), a.0.clone());
    let alt = P::combine_alt(a.0.clone(), b.0.clone());
    ctx.steps(3);
    for (r, x, y) in [(&ab, &a.1, &b.1), (&ba, &b.1, &a.1), (&alt, &a.1, &b.1)] {
        match (r, w) {
            (Ok(_), Want::Refuse) => return Err("combined although the transactions or key origins differ".into()),
            (Err(e), Want::Union) => return Err(format!("refused: {:?}", e)),
            (Err(e), _) => {
                ctx.err(e)?;
                ctx.outcome("refused");
            }
            (Ok(r), _) => {
                union_ok(x, y, r)?;
                ctx.state(&r.ser());
                ctx.outcome("combined");
            }
        }
    }
    if let (Ok(x), Ok(y)) = (&ab, &ba) {
        if x != y && !conflicts(&canon_of(P::VER, &a.1), &canon_of(P::VER, &b.1)) && flags(&a.1) == flags(&b.1) {
            return Err("the order of the operands matters although they do not conflict".into());
        }
    }
    if w == Want::Union {
        // What one of them already holds adds nothing.
        let again = ab.as_ref().ok().map(|r| P::combine2(r.clone(), a.0.clone()));
        let same = P::combine2(a.0.clone(), a.0.clone());
        ctx.steps(2);
        match same {
            Ok(r) if r == a.0 => {}
            r => return Err(format!("combining a PSBT with itself gives {:?}", r.map(|r| r.hexs()))),
        }
        match (again, &ab) {
            (Some(Ok(r)), Ok(_)) => union_ok(&a.1, &b.1, &r)?,
            (Some(Err(e)), Ok(_)) => return Err(format!("result does not combine with its own operand: {:?}", e)),
            _ => {}
        }
    }
    ctx.validated();
    Ok(())
}
/// The modifiable flags are a pair in version 2 even when zero.
fn flags(w: &WPsbt) -> Vec<u8> { get(&w.g, 6).unwrap_or(&[0]).to_vec() }

fn triple_check<P: CombineV>(ctx: &Ctx, s: [&Side<P>; 3]) -> Res {
    let c: Vec<_> = s.iter().map(|x| canon_of(P::VER, &x.1)).collect();
    let clean = !conflicts(&c[0], &c[1]) && !conflicts(&c[0], &c[2]) && !conflicts(&c[1], &c[2]);
    let ws: Vec<_> = [(0, 1), (0, 2), (1, 2)].iter().map(|(i, j)| want::<P>(&s[*i].1, &s[*j].1)).collect();
    if !clean || ws.iter().any(|w| *w != Want::Union) || (1..3).any(|k| flags(&s[k].1) != flags(&s[0].1)) {
        ctx.outcome("triple with conflict");
        return Ok(());
    }
    let mut first: Option<P> = None;
    for p in perms(3) {
        let [x, y, z] = [&s[p[0]].0, &s[p[1]].0, &s[p[2]].0].map(|x| x.clone());
        let left = P::combine2(P::combine2(x.clone(), y.clone()).map_err(|e| format!("{:?}", e))?, z.clone())
            .map_err(|e| format!("{:?}", e))?;
        let right = P::combine2(x, P::combine2(y, z).map_err(|e| format!("{:?}", e))?).map_err(|e| format!("{:?}", e))?;
        ctx.steps(4);
        if left != right {
            return Err("(a+b)+c differs from a+(b+c)".into());
        }
        match &first {
            None => first = Some(left),
            Some(f) if *f == left => {}
            Some(_) => return Err("the order of three operands matters".into()),
        }
    }
    let r = first.unwrap();
    let mut u = s[0].1.clone();
    for k in 1..3 {
        for ix in 0..u.n_maps() {
            let mut other = s[k].1.clone();
            let add: Vec<Kv> = other.map_mut(ix).clone();
            let m = u.map_mut(ix);
            for p in add {
                if !m.iter().any(|q| q.t == p.t && q.kd == p.kd) {
                    m.push(p);
                }
            }
        }
    }
    ctx.state(&r.ser());
    ctx.validated();
    union_ok(&u, &u, &r)
}

type Sel<P> = Vec<(usize, &'static Atom<P>)>;
fn names<P>(s: &Sel<P>) -> String {
    s.iter().map(|(i, a)| format!("{}@{}", a.name, i)).collect::<Vec<_>>().join("+")
}
fn side<P: CombineV>(ni: usize, no: usize, s: &Sel<P>) -> Side<P> { build(ni, no, &complete(s)) }

pub fn combine<P: CombineV>(ctx: &Ctx) {
    let at = P::atoms();
    ctx.bound("maps", "2 inputs, 2 outputs; up to 3x3 for full sides");
    ctx.bound("pairs", "every field value on one side, the other and both; every pair of field values split over two sides");
    let n_of = |a: &Atom<P>| if a.k == K::G { 1 } else { 2 };
    let case = |l: Sel<P>, r: Sel<P>, tag: &str, ni: usize, no: usize| {
        ctx.case(
            || format!("{:?} {} {}x{} [{}] with [{}]", P::VER, tag, ni, no, names(&l), names(&r)),
            |ctx| pair_check(ctx, &side(ni, no, &l), &side(ni, no, &r)),
        );
    };
    // Everything on one side, on both, and split in halves.
    for ni in 0..=3 {
        for no in 0..=3 {
            let all = all_atoms::<P>(ni, no, |_| false);
            // Fields that make a different transaction must be on both sides.
            let (tx, rest): (Sel<P>, Sel<P>) = all.iter().cloned().partition(|(_, a)| alters::<P>(a));
            let mut l = tx.clone();
            let mut r = tx.clone();
            case(l.clone(), all.clone(), "full", ni, no);
            case(all.clone(), all.clone(), "full", ni, no);
            case(vec![], vec![], "full", ni, no);
            for m in 1..=3usize {
                l.truncate(tx.len());
                r.truncate(tx.len());
                for (k, x) in rest.iter().enumerate() {
                    if (k / m) % 2 == 0 { l.push(*x) } else { r.push(*x) }
                }
                case(l.clone(), r.clone(), "halves", ni, no);
            }
        }
    }
    for a in at {
        for ix in 0..n_of(a) {
            case(vec![(ix, a)], vec![], "single", 2, 2);
            case(vec![(ix, a)], vec![(ix, a)], "single", 2, 2);
            if !a.rare {
                let mut rest = all_atoms::<P>(2, 2, |b| clash(a, b) && !alters::<P>(a));
                rest.retain(|(j, b)| !(*j == ix && clash(a, b)));
                let mut all = rest.clone();
                all.push((ix, a));
                case(all.clone(), rest.clone(), "full", 2, 2);
                case(vec![(ix, a)], all.clone(), "full", 2, 2);
                let tx: Sel<P> = all.iter().filter(|(_, a)| alters::<P>(a)).cloned().collect();
                let mut one = tx.clone();
                one.push((ix, a));
                case(rest, one.clone(), "full", 2, 2);
                case(all, tx, "full", 2, 2);
            }
        }
    }
    // Every pair split over the two sides, which includes every conflict.
    for a in at {
        for b in at {
            if a.rare || b.rare {
                continue;
            }
            for (i, j) in if ctx.thorough { vec![(0, 0), (0, 1), (1, 0), (1, 1)] } else { vec![(0, 0), (1, 1), (0, 1)] } {
                if i >= n_of(a) || j >= n_of(b) || (!ctx.thorough && i != j && a.k != b.k) {
                    continue;
                }
                case(vec![(i, a)], vec![(j, b)], "split", 2, 2);
                // Both sides share what makes the transaction.
                if alters::<P>(a) && !(i == j && clash(a, b)) {
                    case(vec![(i, a)], vec![(i, a), (j, b)], "split", 2, 2);
                }
            }
        }
    }
    // Two conflicts at once, with something beside them.
    for (x, a) in at.iter().enumerate() {
        for b in &at[x + 1..] {
            if a.rare || b.rare || !clash(a, b) {
                continue;
            }
            for c in at.iter().filter(|c| c.name.ends_with("#0") && !c.rare && !clash(a, c)) {
                case(vec![(0, a), (0, c)], vec![(0, b)], "conflict", 1, 1);
                case(vec![(0, a)], vec![(0, c), (0, b)], "conflict", 1, 1);
            }
        }
    }
    // Three operands: all ways to hand three fields to three operands.
    let reps: Vec<&'static Atom<P>> = at
        .iter()
        .filter(|a| !a.rare && !alters::<P>(a) && (ctx.thorough || a.name.ends_with("#0") || a.name.ends_with("#1")))
        .collect();
    for (x, a) in reps.iter().enumerate() {
        for (y, b) in reps.iter().enumerate().skip(x + 1) {
            for (z, c) in reps.iter().enumerate().skip(y + 1) {
                if clash(a, b) || clash(b, c) || clash(a, c) {
                    continue;
                }
                // Quick: fields of one kind of map, or spread thinly over kinds.
                if !ctx.thorough && (a.k != b.k || b.k != c.k) && (x + y + z) % 7 != 0 {
                    continue;
                }
                ctx.case(
                    || format!("{:?} triple {} {} {}", P::VER, a.name, b.name, c.name),
                    |ctx| {
                        let s = [side(1, 1, &vec![(0, *a)]), side(1, 1, &vec![(0, *b)]), side(1, 1, &vec![(0, *c)])];
                        triple_check(ctx, [&s[0], &s[1], &s[2]])
                    },
                );
            }
        }
    }
    // Overlapping shares of one field each among three operands.
    let few: Vec<_> = reps.iter().filter(|a| a.name.ends_with("#0")).collect();
    for (x, a) in few.iter().enumerate() {
        for b in few.iter().skip(x + 1) {
            if clash(a, b) {
                continue;
            }
            for da in 1..8usize {
                for db in 1..8usize {
                    if !ctx.thorough && (da * 7 + db + x) % 5 != 0 {
                        continue;
                    }
                    ctx.case(
                        || format!("{:?} shares {} to {} {} to {}", P::VER, a.name, da, b.name, db),
                        |ctx| {
                            let s: Vec<_> = (0..3)
                                .map(|k| {
                                    let mut v: Sel<P> = vec![];
                                    if da >> k & 1 == 1 {
                                        v.push((0, a));
                                    }
                                    if db >> k & 1 == 1 {
                                        v.push((0, b));
                                    }
                                    side(1, 1, &v)
                                })
                                .collect();
                            triple_check(ctx, [&s[0], &s[1], &s[2]])
                        },
                    );
                }
            }
        }
    }
    origins::<P>(ctx);
    shapes::<P>(ctx);
    long::<P>(ctx);
}

/// Many maps, and many pairs of one field.
fn long<P: CombineV>(ctx: &Ctx) {
    ctx.bound("long PSBTs", "300 inputs and outputs; up to 300 pairs of one field");
    for a in P::atoms().iter().filter(|a| a.name.ends_with("#0") && a.k != K::G) {
        let shape = if a.k == K::I { (300, 2) } else { (2, 300) };
        // Another value for the same key, if there is one.
        let b = P::atoms().iter().find(|b| !b.rare && b.name != a.name && clash(a, b)).unwrap_or(a);
        for x in FAR {
            for y in FAR {
                if !ctx.thorough && x != y && x != 1 && y != 299 {
                    continue;
                }
                ctx.case(
                    || format!("{:?} long {} in {} and {}", P::VER, a.name, x, y),
                    |ctx| {
                        let s: Vec<Side<P>> =
                            [vec![(x, a)], vec![(y, b)], vec![(x, a), (y, b)]].iter().map(|v| side(shape.0, shape.1, v)).collect();
                        pair_check(ctx, &s[0], &s[1])?;
                        pair_check(ctx, &s[0], &s[2])
                    },
                );
            }
        }
    }
    for a in crowded::<P>() {
        for (n, by) in [(300u32, 2u32), (300, 3), (257, 256), (300, 1)] {
            for how in 0..4 {
                ctx.case(
                    || format!("{:?} {} {} every {} to side {}", P::VER, n, a.name, by, how),
                    |ctx| {
                        let mk = |f: &dyn Fn(u32) -> bool, other: bool| -> Result<Side<P>, String> {
                            let mut w = P::base(2, 2).1;
                            let m = match a.k { K::G => &mut w.g, K::I => &mut w.i[1], K::O => &mut w.o[1] };
                            for k in (0..n).filter(|k| f(*k)) {
                                m.extend(crowd(a, k).unwrap());
                            }
                            if other {
                                // Another value for the last pair, where a key does not say what its value must be.
                                let p = m.last_mut().unwrap();
                                match a.field {
                                    "unknown" | "proprietary" => p.v[0] ^= 1,
                                    "bip32_derivation" | "tap_key_origins" => *p.v.last_mut().unwrap() ^= 1,
                                    "sp_ecdh_shares" => p.v[5] ^= 1,
                                    _ => {}
                                }
                            }
                            P::de(&w.bytes()).map(|p| (p, w)).map_err(|e| format!("{:?}", e))
                        };
                        let (l, r) = match how {
                            0 => (mk(&|k| k % by == 0, false)?, mk(&|k| k % by != 0, false)?),
                            1 => (mk(&|k| k % by == 0, false)?, mk(&|_| true, false)?),
                            2 => (mk(&|k| k / 100 != 1, false)?, mk(&|k| k / 100 != 0, false)?),
                            _ => (mk(&|k| k % by == 0 || k + 1 == n, false)?, mk(&|k| k % by != 0 || k + 1 == n, true)?),
                        };
                        pair_check(ctx, &l, &r)
                    },
                );
            }
        }
    }
    // Transactions that differ far from their start.
    for (ni, no) in [(300usize, 1usize), (1, 300), (300, 300)] {
        for x in FAR {
            for what in 0..5 {
                ctx.case(
                    || format!("{:?} {}x{} differ at {} in {}", P::VER, ni, no, x, what),
                    |ctx| {
                        let (x, y) = (x.min(ni - 1), x.min(no - 1));
                        let a = side(ni, no, &vec![]);
                        let mut w = a.1.clone();
                        match P::VER {
                            Ver::V2 => {
                                let (m, t) = match what {
                                    0 => (&mut w.i[x], 0x0e),
                                    1 => (&mut w.i[x], 0x0f),
                                    2 => (&mut w.o[y], 3),
                                    3 => (&mut w.o[y], 4),
                                    _ => (&mut w.i[x], 0x12),
                                };
                                match m.iter_mut().find(|p| p.t == t) {
                                    Some(p) => p.v[0] ^= 1,
                                    None => m.push(kv(t, [], 5u32.to_le_bytes())),
                                }
                            }
                            Ver::V0 => {
                                let mut tx = unsigned_tx(get(&w.g, 0).unwrap()).unwrap();
                                match what {
                                    0 => tx.input[x].previous_output.txid = txid(9999),
                                    1 => tx.input[x].previous_output.vout ^= 1,
                                    2 => tx.output[y].value += bitcoin::Amount::from_sat(1),
                                    3 => tx.output[y].script_pubkey = script(3),
                                    _ => tx.input[x].sequence.0 ^= 1,
                                }
                                w.g[0].v = legacy_ser(&tx);
                            }
                        }
                        let b = P::de(&w.bytes()).map(|p| (p, w)).map_err(|e| format!("{:?}", e))?;
                        pair_check(ctx, &a, &b)
                    },
                );
            }
        }
    }
}

/// Fields of version 2 that are part of the transaction.
fn alters<P: PsbtV>(a: &Atom<P>) -> bool {
    P::VER == Ver::V2
        && matches!(
            (a.k, a.kv.t),
            (K::G, 2) | (K::G, 3) | (K::I, 0x0e) | (K::I, 0x0f) | (K::I, 0x11) | (K::I, 0x12) | (K::O, 3) | (K::O, 4)
                | (K::O, 9)
        )
}

/// Extended key origins: every pair of paths up to length two over two steps, two fingerprints.
fn origins<P: CombineV>(ctx: &Ctx) {
    let n = if ctx.thorough { 4 } else { 3 };
    let mut paths: Vec<Vec<u32>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..n {
        for k in from..paths.len() {
            for s in [1, 0x8000_0002] {
                let mut p = paths[k].clone();
                p.push(s);
                paths.push(p);
            }
        }
        from = paths.len() - 2usize.pow(paths.last().unwrap().len() as u32);
    }
    for p in &paths {
        for q in &paths {
            for (f, g) in [([1u8; 4], [1u8; 4]), ([1; 4], [2; 4])] {
                for other in [false, true] {
                    ctx.case(
                        || format!("{:?} origins {:?} {:?} {} {}", P::VER, p, q, f == g, other),
                        |ctx| {
                            let mk = |f: [u8; 4], p: &[u32], extra: u32| {
                                let (_, mut w) = P::base(1, 1);
                                w.g.push(kv(1, xpub(0).encode().to_vec(), ks_bytes(f, p)));
                                if other {
                                    w.g.push(kv(1, xpub(extra).encode().to_vec(), ks_bytes([9; 4], &[extra])));
                                    w.g.push(kv(0xe0, [extra as u8], [7]));
                                }
                                P::de(&w.bytes()).map(|p| (p, w)).map_err(|e| format!("{:?}", e))
                            };
                            pair_check(ctx, &mk(f, p, 1)?, &mk(g, q, 2)?)
                        },
                    );
                }
            }
        }
    }
}

/// Different numbers of maps and every one-field difference of the transaction.
fn shapes<P: CombineV>(ctx: &Ctx) {
    let sizes: Vec<(usize, usize)> = (0..=3).flat_map(|i| (0..=3).map(move |o| (i, o))).collect();
    for a in &sizes {
        for b in &sizes {
            for full in 0..4 {
                ctx.case(
                    || format!("{:?} shapes {:?} {:?} {}", P::VER, a, b, full),
                    |ctx| {
                        let mk = |s: &(usize, usize), f: bool| {
                            let sel = if f { all_atoms::<P>(s.0, s.1, |x| alters::<P>(x)) } else { vec![] };
                            side(s.0, s.1, &sel)
                        };
                        pair_check(ctx, &mk(a, full & 1 == 1), &mk(b, full & 2 == 2))
                    },
                );
            }
        }
    }
    // Changes of the transaction, compared with each other.
    for x in 0..TX_CHANGES {
        for y in 0..TX_CHANGES {
            for full in 0..2 {
                ctx.case(
                    || format!("{:?} changes {} {} {}", P::VER, x, y, full),
                    |ctx| {
                        let mk = |c: usize| {
                            let sel = if full == 1 { all_atoms::<P>(2, 2, |a| alters::<P>(a)) } else { vec![] };
                            let (_, mut w) = side(2, 2, &sel);
                            change(P::VER, &mut w, c);
                            P::de(&w.bytes()).map(|p| (p, w)).map_err(|e| format!("{} {:?}", c, e))
                        };
                        pair_check(ctx, &mk(x)?, &mk(y)?)
                    },
                );
            }
        }
    }
}

pub const TX_CHANGES: usize = 16;
/// One change of the transaction, made in the pairs.
pub fn change(ver: Ver, w: &mut WPsbt, c: usize) {
    use bitcoin::*;
    let mut tx = match ver {
        Ver::V2 => tx_of(w).unwrap(),
        Ver::V0 => unsigned_tx(get(&w.g, 0).unwrap()).unwrap(),
    };
    match c {
        0 => {}
        1 => tx.version = transaction::Version(1),
        2 => tx.version = transaction::Version(-1),
        3 => tx.lock_time = absolute::LockTime::from_consensus(1),
        4 => tx.lock_time = absolute::LockTime::from_consensus(u32::MAX),
        5 => tx.input[0].previous_output.txid = txid(77),
        6 => tx.input[1].previous_output.txid = txid(77),
        7 => tx.input[0].previous_output.vout ^= 1 << 31,
        8 => tx.input[1].previous_output.vout += 1,
        9 => tx.output[0].value += Amount::from_sat(1),
        10 => tx.output[1].value += Amount::from_sat(1 << 32),
        11 => tx.output[0].script_pubkey = ScriptBuf::new(),
        12 => tx.output[1].script_pubkey.push_opcode(opcodes::OP_TRUE),
        13 => tx.input.swap(0, 1),
        14 => tx.output.swap(0, 1),
        // Sequences are part of the transaction in version 0, and a field of the input in version 2.
        15 => tx.input[1].sequence = Sequence(5),
        _ => unreachable!(),
    }
    let put = |m: &mut WMap, t: u8, v: Vec<u8>| match m.iter_mut().find(|p| p.t == t && p.kd.is_empty()) {
        Some(p) => p.v = v,
        None => m.push(kv(t, [], v)),
    };
    match ver {
        Ver::V0 => put(&mut w.g, 0, legacy_ser(&tx)),
        Ver::V2 => {
            put(&mut w.g, 2, tx.version.0.to_le_bytes().to_vec());
            put(&mut w.g, 3, tx.lock_time.to_consensus_u32().to_le_bytes().to_vec());
            for (m, i) in w.i.iter_mut().zip(&tx.input) {
                use hashes::Hash;
                put(m, 0x0e, i.previous_output.txid.to_byte_array().to_vec());
                put(m, 0x0f, i.previous_output.vout.to_le_bytes().to_vec());
                put(m, 0x10, i.sequence.0.to_le_bytes().to_vec());
            }
            for (m, o) in w.o.iter_mut().zip(&tx.output) {
                put(m, 3, o.value.to_sat().to_le_bytes().to_vec());
                put(m, 4, o.script_pubkey.to_bytes());
            }
        }
    }
}
