//! C05 and the text part of C04.
use crate::fields::*;
use crate::run::*;
use crate::util::*;
use crate::wire::*;
use psbt_v2::{v0, v2};
use std::fmt::Display;
use std::str::FromStr;

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn b64(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(B64[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}
/// Canonical base64 only.
pub fn unb64(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 4 != 0 {
        return None;
    }
    let mut out = vec![];
    for (i, q) in b.chunks(4).enumerate() {
        let pad = q.iter().rev().take_while(|c| **c == b'=').count();
        if pad > 2 || (pad > 0 && (i + 1) * 4 != b.len()) {
            return None;
        }
        let mut n = 0u32;
        for c in &q[..4 - pad] {
            n = n << 6 | B64.iter().position(|x| x == c)? as u32;
        }
        n <<= 6 * pad;
        let bytes = [(n >> 16) as u8, (n >> 8) as u8, n as u8];
        if bytes[3 - pad..].iter().any(|x| *x != 0) {
            return None;
        }
        out.extend(&bytes[..3 - pad]);
    }
    Some(out)
}

pub trait TextV: PsbtV + Display + FromStr<Err = Self::TE> + serde::Serialize + serde::de::DeserializeOwned {
    type TE: std::error::Error + 'static;
}
impl TextV for v2::Psbt {
    type TE = v2::ParsePsbtError;
}
impl TextV for v0::Psbt {
    type TE = v0::bitcoin::PsbtParseError;
}

fn forms<P: TextV>(ctx: &Ctx, p: &P) -> Res {
    let bytes = p.ser();
    ctx.state(&bytes);
    let t = p.to_string();
    if t != b64(&bytes) {
        return Err(format!("base64 text is not the encoding of the bytes: {}", t));
    }
    if p.hexs() != hex(&bytes) {
        return Err(format!("hex text is not the encoding of the bytes: {}", p.hexs()));
    }
    match P::from_str(&t) {
        Ok(q) if q == *p => {}
        Ok(_) => return Err("text parses to another value".into()),
        Err(e) => return Err(format!("own text does not parse: {:?}", e)),
    }
    ctx.steps(4);
    ctx.validated();
    Ok(())
}

fn json_forms<P: TextV>(ctx: &Ctx, p: &P) -> Res {
    let bytes = p.ser();
    let j = serde_json::to_string(p).map_err(|e| format!("to JSON: {}", e))?;
    let back: Result<P, _> = serde_json::from_str(&j);
    match back {
        Ok(q) if q == *p => {
            if q.ser() != bytes {
                return Err("JSON round trip changes the bytes".into());
            }
        }
        Ok(_) => return Err(format!("JSON round trip changes the value: {}", j)),
        Err(e) => return Err(format!("own JSON does not parse ({}): {}", e, j)),
    }
    // The same JSON from a reader and from a value tree, where strings cannot be borrowed.
    match serde_json::from_reader::<_, P>(j.as_bytes()) {
        Ok(q) if q == *p => {}
        Ok(_) => return Err("JSON read from a reader changes the value".into()),
        Err(e) => return Err(format!("own JSON does not parse from a reader ({}): {}", e, j)),
    }
    let v = serde_json::to_value(p).map_err(|e| format!("to JSON value: {}", e))?;
    match serde_json::from_value::<P>(v) {
        Ok(q) if q == *p => {}
        Ok(_) => return Err("JSON value round trip changes the value".into()),
        Err(e) => return Err(format!("own JSON value does not parse ({}): {}", e, j)),
    }
    let pretty = serde_json::to_vec_pretty(p).map_err(|e| e.to_string())?;
    match serde_json::from_slice::<P>(&pretty) {
        Ok(q) if q == *p => {}
        _ => return Err("pretty JSON round trip fails".into()),
    }
    ctx.steps(8);
    ctx.validated();
    Ok(())
}

fn compact_forms<P: TextV>(ctx: &Ctx, p: &P) -> Res {
    let bytes = p.ser();
    let c = bincode::serialize(p).map_err(|e| format!("to bincode: {}", e))?;
    match bincode::deserialize::<P>(&c) {
        Ok(q) if q == *p => {
            if q.ser() != bytes {
                return Err("compact round trip changes the bytes".into());
            }
        }
        Ok(_) => return Err(format!("compact round trip changes the value: {}", hex(&c))),
        Err(e) => return Err(format!("own compact form does not parse ({}): {}", e, hex(&c))),
    }
    match bincode::deserialize_from::<_, P>(&c[..]) {
        Ok(q) if q == *p => {}
        Ok(_) => return Err("compact form from a reader changes the value".into()),
        Err(e) => return Err(format!("own compact form does not parse from a reader ({})", e)),
    }
    ctx.steps(3);
    ctx.validated();
    Ok(())
}

fn sel_case<P: TextV>(ctx: &Ctx, tag: &str, ni: usize, no: usize, sel: Vec<(usize, &'static Atom<P>)>) {
    let id = |how: &str| {
        let n: Vec<_> = sel.iter().map(|(i, a)| format!("{}@{}", a.name, i)).collect();
        format!("{:?} {} {} {}x{} {}", P::VER, how, tag, ni, no, n.join("+"))
    };
    ctx.case(|| id("text"), |ctx| forms(ctx, &build(ni, no, &complete(&sel)).0));
    // Two fields cannot be read back, because of the dependencies that read them (see
    // known-findings.json). They have their own cases; elsewhere they would hide everything else.
    let but = |f: &str| -> Vec<(usize, &'static Atom<P>)> {
        sel.iter().filter(|(_, a)| tag == "single" || a.field != f).cloned().collect()
    };
    ctx.case(|| id("json"), |ctx| json_forms(ctx, &build(ni, no, &complete(&but("tap_scripts"))).0));
    ctx.case(|| id("compact"), |ctx| compact_forms(ctx, &build(ni, no, &complete(&but("tap_tree"))).0));
}

fn parse_text<P: TextV>(ctx: &Ctx, t: &str) -> Res {
    let got = P::from_str(t);
    ctx.step();
    let want = unb64(t).map(|b| P::de(&b));
    match (want, got) {
        (None, Ok(_)) => Err(format!("accepted although not canonical base64: {:?}", t)),
        (None, Err(e)) => {
            ctx.err(&e)?;
            ctx.outcome("not base64");
            ctx.validated();
            Ok(())
        }
        (Some(Ok(a)), Ok(b)) => {
            ctx.outcome("accepted");
            ctx.state(t.as_bytes());
            ctx.validated();
            if a == b { Ok(()) } else { Err(format!("text parses to another value than its bytes: {:?}", t)) }
        }
        (Some(Err(_)), Err(e)) => {
            ctx.err(&e)?;
            ctx.outcome("bytes rejected");
            ctx.validated();
            Ok(())
        }
        (Some(Ok(_)), Err(e)) => Err(format!("base64 of acceptable bytes rejected with {:?}: {:?}", e, t)),
        (Some(Err(_)), Ok(_)) => Err(format!("base64 of unacceptable bytes accepted: {:?}", t)),
    }
}

fn text_v<P: TextV>(ctx: &Ctx) {
    for ni in 0..=3 {
        for no in 0..=3 {
            sel_case::<P>(ctx, "bare", ni, no, vec![]);
            sel_case(ctx, "full", ni, no, all_atoms::<P>(ni, no, |_| false));
        }
    }
    let at = P::atoms();
    for a in at {
        for ix in 0..if a.k == K::G { 1 } else { 2 } {
            sel_case(ctx, "single", 2, 2, vec![(ix, a)]);
        }
        if !a.rare {
            let mut f = all_atoms::<P>(1, 1, |b| clash(a, b));
            f.push((0, a));
            sel_case(ctx, "full-with", 1, 1, f);
        }
    }
    for (i, a) in at.iter().enumerate() {
        for b in &at[i + 1..] {
            if !a.rare && !b.rare && !clash(a, b) && (ctx.thorough || a.k == b.k) {
                sel_case(ctx, "pair", 1, 1, vec![(0, a), (0, b)]);
            }
        }
    }
    // Edits of the text. Three lengths of bytes, so that each padding occurs.
    for extra in 0..3usize {
        let mut w = P::base(1, 1).1;
        w.g.push(kv(0x80, [], vec![0xf0 | extra as u8; extra]));
        let t = b64(&w.bytes());
        let subs: Vec<char> = if ctx.thorough {
            (0..128u8).map(|c| c as char).chain(['é', '\u{ff0b}', '\u{0}']).collect()
        } else {
            "ABQgwz09+/=-_ \n\ré~.".chars().collect()
        };
        let chars: Vec<char> = t.chars().collect();
        for pos in 0..=chars.len() {
            for s in &subs {
                for op in 0..2 {
                    ctx.case(
                        || format!("{:?} text {} {} {:?} at {}", P::VER, extra, if op == 0 { "replace" } else { "insert" }, s, pos),
                        |ctx| {
                            let mut c = chars.clone();
                            if op == 0 && pos < c.len() { c[pos] = *s } else { c.insert(pos, *s) }
                            parse_text::<P>(ctx, &c.iter().collect::<String>())
                        },
                    );
                }
            }
            ctx.case(
                || format!("{:?} text {} cut at {}", P::VER, extra, pos),
                |ctx| {
                    parse_text::<P>(ctx, &chars[..pos].iter().collect::<String>())?;
                    parse_text::<P>(ctx, &chars[pos..].iter().collect::<String>())
                },
            );
            ctx.case(
                || format!("{:?} text {} without {}", P::VER, extra, pos),
                |ctx| {
                    let mut c = chars.clone();
                    if pos < c.len() {
                        c.remove(pos);
                    }
                    parse_text::<P>(ctx, &c.iter().collect::<String>())
                },
            );
        }
        for tail in ["=", "==", "===", "====", "A", "AA", "AAA=", "AA==", "\n", " ", "\0"] {
            for head in ["", " ", "\n", "=", "psbt", "\u{feff}"] {
                ctx.case(
                    || format!("{:?} text {} wrapped {:?} {:?}", P::VER, extra, head, tail),
                    |ctx| {
                        parse_text::<P>(ctx, &format!("{}{}{}", head, t, tail))?;
                        parse_text::<P>(ctx, &format!("{}{}{}", head, t.trim_end_matches('='), tail))?;
                        parse_text::<P>(ctx, &format!("{}{}{}", head, hex(&w.bytes()), tail))
                    },
                );
            }
        }
    }
}

pub fn text(ctx: &Ctx) {
    text_v::<v2::Psbt>(ctx);
    text_v::<v0::Psbt>(ctx);
    ctx.bound("serde formats", "JSON (string, reader, value, pretty), bincode (slice, reader)");
}

// ---------------------------------------------------------------- C04, text

fn json_case<P: TextV>(ctx: &Ctx, j: &str) -> Res {
    let (r, peak) = max_alloc(|| serde_json::from_str::<P>(j));
    ctx.step();
    if peak > 34_000_000 + 64 * j.len() {
        return Err(format!("one allocation of {} bytes for JSON of {} bytes", peak, j.len()));
    }
    match r {
        Err(_) => {
            ctx.outcome("JSON rejected");
            Ok(())
        }
        Ok(p) => {
            ctx.outcome("JSON accepted");
            let back = serde_json::to_string(&p).map_err(|e| e.to_string())?;
            match serde_json::from_str::<P>(&back) {
                Ok(q) if q == p => Ok(()),
                _ => Err(format!("accepted JSON does not round trip: {}", j)),
            }
        }
    }
}

fn hostile_text_v<P: TextV>(ctx: &Ctx) {
    // Text: all strings up to four characters after the encoded magic, and free ones.
    let alpha: Vec<char> = if ctx.thorough { "AB/+=8gQ _é".chars().collect() } else { "A/=Q é".chars().collect() };
    for n in 0..=5usize {
        let total = alpha.len().pow(n as u32);
        for lo in (0..total).step_by(500) {
            ctx.case(
                || format!("{:?} texts of {} characters from {}", P::VER, n, lo),
                |ctx| {
                    for x in lo..(lo + 500).min(total) {
                        let mut y = x;
                        let mut s = String::new();
                        for _ in 0..n {
                            s.push(alpha[y % alpha.len()]);
                            y /= alpha.len();
                        }
                        for head in ["", "cHNidP8", "cHNidP8BAFICAAAA"] {
                            let t = format!("{}{}", head, s);
                            let (r, peak) = max_alloc(|| P::from_str(&t));
                            ctx.step();
                            if peak > 34_000_000 {
                                return Err(format!("allocation of {} for {:?}", peak, t));
                            }
                            match r {
                                Err(e) => ctx.err(&e)?,
                                Ok(p) => {
                                    if P::from_str(&p.to_string()).ok().as_ref() != Some(&p) {
                                        return Err(format!("accepted text does not round trip: {:?}", t));
                                    }
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // JSON: truncations and single-character edits.
    for a in P::atoms() {
        if a.rare || (!ctx.thorough && !a.name.ends_with("#0")) {
            continue;
        }
        let j = serde_json::to_string(&build::<P>(1, 1, &complete(&[(0, a)])).0).unwrap_or_default();
        let chars: Vec<char> = j.chars().collect();
        let subs = ['0', '"', '-', '9', 'f', '[', 'g'];
        for pos in 0..chars.len() {
            ctx.case(
                || format!("{:?} JSON {} edits at {}", P::VER, a.name, pos),
                |ctx| {
                    json_case::<P>(ctx, &chars[..pos].iter().collect::<String>())?;
                    for s in subs {
                        let mut c = chars.clone();
                        c[pos] = s;
                        json_case::<P>(ctx, &c.iter().collect::<String>())?;
                    }
                    let mut c = chars.clone();
                    c.remove(pos);
                    json_case::<P>(ctx, &c.iter().collect::<String>())
                },
            );
        }
    }
}
pub fn hostile_text(ctx: &Ctx) {
    hostile_text_v::<v2::Psbt>(ctx);
    hostile_text_v::<v0::Psbt>(ctx);
}
