mod c_codec;
mod c_combine;
mod c_err;
mod c_fee;
mod c_flow;
mod c_desc;
mod c_final;
mod c_hist;
mod c_odd;
mod c_raw;
mod c_roles;
mod c_sat;
mod c_sign;
mod c_small;
mod c_text;
mod c_unsigned;
mod c_where;
mod fields;
mod model;
mod run;
mod util;
mod wire;
mod interp;
mod spend;

use psbt_v2::{v0, v2};
use run::*;

#[global_allocator]
static A: Alloc = Alloc;

struct Prop {
    id: &'static str,
    check: fn(&Ctx),
    rule: &'static str,
    assumptions: &'static [&'static str],
}

const DEPS: &str = "rust-bitcoin, libsecp256k1 and rust-miniscript (dependencies) behave as documented";

const PROPS: &[Prop] = &[
    Prop { id: "C01", check: c_codec::lossless::<v2::Psbt>,
        rule: "bytes = reference encoding of the fields set; parsing the bytes gives an equal value",
        assumptions: &[DEPS, "field values outside the table behave like those in it"] },
    Prop { id: "C02", check: c_codec::parser::<v2::Psbt>,
        rule: "accepted if and only if the reference recogniser accepts; order of pairs irrelevant",
        assumptions: &[DEPS, "field values outside the table behave like those in it"] },
    Prop { id: "C04", check: c_codec::hostile_bytes,
        rule: "no panic, abort, hang or allocation beyond 34 MB + 64 x length; accepted bytes re-serialise stably",
        assumptions: &[DEPS] },
    Prop { id: "C05", check: c_text::text,
        rule: "text = reference base64/hex of the bytes; only canonical base64 parses; serde round trips are equal",
        assumptions: &[DEPS, "serde_json and bincode stand for human-readable and compact formats"] },
    Prop { id: "C06", check: c_codec::lossless::<v0::Psbt>,
        rule: "bytes = reference encoding of the fields set; parsing the bytes gives an equal value",
        assumptions: &[DEPS, "field values outside the table behave like those in it"] },
    Prop { id: "C07", check: c_codec::parser::<v0::Psbt>,
        rule: "accepted if and only if the reference recogniser accepts; order of pairs irrelevant",
        assumptions: &[DEPS, "field values outside the table behave like those in it"] },
    Prop { id: "C08", check: c_raw::raw_keys,
        rule: "a raw key is proprietary if and only if it has type 0xFC and holds a minimal compact size, that prefix and a subtype; both conversions, both codecs and both serde forms are inverse",
        assumptions: &[DEPS, "key data up to the documented limit of 1024 bytes"] },
    Prop { id: "K01", check: c_combine::combine::<v2::Psbt>,
        rule: "combined if and only if same transaction and consistent key origins; result = union of the pairs; order and grouping irrelevant without conflicts",
        assumptions: &[DEPS, "field values outside the table behave like those in it"] },
    Prop { id: "K02", check: c_combine::combine::<v0::Psbt>,
        rule: "combined if and only if same transaction and consistent key origins; result = union of the pairs; order and grouping irrelevant without conflicts",
        assumptions: &[DEPS, "field values outside the table behave like those in it"] },
    Prop { id: "R01", check: c_roles::lock_time,
        rule: "determined lock time = BIP-370 rule on the requirements; roles refuse exactly the conflicting PSBTs",
        assumptions: &[DEPS, "the rule depends on presence and order of the required values only"] },
    Prop { id: "R02", check: c_roles::constructing,
        rule: "after every call sequence the PSBT's pairs are those of the reference model; calls fail exactly when the model's do",
        assumptions: &[DEPS] },
    Prop { id: "R03", check: c_roles::unique_id,
        rule: "id reported by every role = txid of the reference unsigned transaction with zero sequences",
        assumptions: &[DEPS, "field values outside the table behave like those in it"] },
    Prop { id: "R04", check: c_roles::flags,
        rule: "flags after signing = BIP-370 rule applied to the sighash types signed with; nothing else changes",
        assumptions: &[DEPS] },
    Prop { id: "R05", check: c_unsigned::creating,
        rule: "created, and read, if and only if no input has a script signature or a witness; holds that transaction and empty maps only",
        assumptions: &[DEPS] },
    Prop { id: "T01", check: c_small::sighash_types,
        rule: "number, name and text of each value agree with the BIP tables and convert back exactly",
        assumptions: &[DEPS] },
    Prop { id: "B01", check: c_small::silent,
        rule: "accepted if and only if the reference recogniser of BIP-375 accepts; accepted pairs kept by serialising and combining",
        assumptions: &[DEPS, "matching of individual scan keys between shares and proofs is not required"] },
    Prop { id: "S03", check: c_small::providers,
        rule: "answer = key derived by an independent BIP-32 implementation, or none",
        assumptions: &[DEPS, "no two extended keys share a fingerprint"] },
    Prop { id: "F02", check: c_fee::extraction,
        rule: "error if and only if floor(1000 fee / weight) exceeds the limit, a UTXO is missing or outputs exceed inputs; transaction = reference transaction with the final scripts",
        assumptions: &[DEPS, "amounts up to the money supply"] },
    Prop { id: "F03", check: c_fee::fees,
        rule: "fee = exact difference of 128-bit sums, or an error; UTXO = output the outpoint names",
        assumptions: &[DEPS, "the UTXO fields of one input agree with each other and with its outpoint's txid"] },
    Prop { id: "S01", check: c_sign::sign_v2,
        rule: "signatures = those of the listed keys the provider gives, each verified against an independently computed signature hash of the reference transaction; errors, reported keys and other fields as the model says",
        assumptions: &[DEPS, "redeem and witness scripts, where present, are those of the output spent"] },
    Prop { id: "S02", check: c_sign::sign_v0,
        rule: "signatures = those of the listed keys the provider gives, each verified against an independently computed signature hash of the unsigned transaction; errors, reported keys and other fields as the model says",
        assumptions: &[DEPS, "redeem and witness scripts, where present, are those of the output spent"] },
    Prop { id: "S04", check: c_sign::signer_checks,
        rule: "accepted if and only if the reference judgement of UTXO, redeem script and witness script says so",
        assumptions: &[DEPS] },
    Prop { id: "F01", check: c_final::final_v2,
        rule: "finalised if and only if the policy is satisfiable with the valid signatures, preimages and time locks; then the extracted transaction is the model's and passes the consensus interpreter",
        assumptions: &[DEPS, "consensus rules as written in interp.rs"] },
    Prop { id: "F04", check: c_final::final_v0,
        rule: "finalised if and only if the policy is satisfiable with the valid signatures, preimages and time locks; then the extracted transaction is the model's and passes the consensus interpreter",
        assumptions: &[DEPS, "consensus rules as written in interp.rs"] },
    Prop {
        id: "F05",
        check: c_desc::descriptors,
        rule: "The expected map is built here from the descriptor text, the key forms and the derivation paths; leaf scripts are those of rust-miniscript, control blocks are checked by hashing up to the output key; a case passes when the updated PSBT equals the expected one exactly, or the unchanged one where the update must be refused; inputs updated from extended keys are signed with the master key, finalised and run in the script interpreter.",
        assumptions: &[DEPS, "descriptors are those of the listed templates; entries present before have the same key source"],
    },
    Prop { id: "F06", check: c_sat::satisfier,
        rule: "every look-up and time lock answer = that of a table of what was put into the input asked about, by BIP-65, BIP-68 and BIP-112 for the locks",
        assumptions: &[DEPS] },
    Prop {
        id: "C03",
        check: c_hist::unknowns,
        rule: "after every operation the raw unknown and proprietary pairs of each map, read from the written bytes by this harness's own framing, are exactly those that went in (the union for combining), and the public maps have as many",
        assumptions: &[DEPS, "one pair of each key among the operands of a combination"],
    },
    Prop { id: "W01", check: c_flow::flow_v2,
        rule: "every action from the PSBT holding exactly the facts of a reachable model state gives the PSBT holding exactly the facts of the model's next state; finalised if and only if the facts satisfy every input; whatever is combined with it, the extracted transaction passes the consensus interpreter",
        assumptions: &[DEPS, "consensus rules as written in interp.rs", "the parties describe one transaction and true facts"] },
    Prop { id: "W02", check: c_flow::flow_v0,
        rule: "every action from the PSBT holding exactly the facts of a reachable model state gives the PSBT holding exactly the facts of the model's next state; finalised if and only if the facts satisfy every input; whatever is combined with it, the extracted transaction passes the consensus interpreter",
        assumptions: &[DEPS, "consensus rules as written in interp.rs", "the parties describe one transaction and true facts"] },
    Prop { id: "E02", check: c_where::named,
        rule: "an index, key, length, version, rate, script or transaction named in an error is that of the planted fault; functions that report per input name exactly the faulty inputs",
        assumptions: &[DEPS, "which variant reports a cause is not specified"] },
    Prop {
        id: "E01",
        check: c_err::errors,
        rule: "every error value has a non-empty message and debug form, in plain and alternate formatting, and so has every link of its source chain, which ends; an error built around another carries that one's message in its own or in its chain; no two variants of a type read the same",
        assumptions: &[DEPS],
    },
];

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let verif = std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into());
    let mut prop = String::new();
    let mut tier = Tier::Quick;
    let mut only = None;
    let mut it = args.iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--tier" => tier = match it.next().map(|s| s.as_str()) {
                Some("quick") => Tier::Quick,
                Some("thorough") => Tier::Thorough,
                t => panic!("unknown tier {:?}", t),
            },
            "--replay" => {
                let f = it.next().expect("replay file");
                let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).expect("replay file")).expect("JSON");
                prop = v["property"].as_str().unwrap().into();
                only = Some(v["case"].as_str().unwrap().to_string());
                tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
            }
            "--case" => only = it.next().cloned(),
            "--list" => {
                for p in PROPS {
                    println!("{}", p.id);
                }
                return;
            }
            p => prop = p.into(),
        }
    }
    let Some(p) = PROPS.iter().find(|p| p.id == prop) else {
        eprintln!("usage: mc PROPERTY --tier quick|thorough | mc --replay FILE | mc --list");
        std::process::exit(2);
    };
    let known = load_known(&format!("{}/known-findings.json", verif), p.id);
    init(Global { prop: p.id.into(), tier, only, known, verif, start: std::time::Instant::now() });
    let st = run::run(p.check, p.id == "E01");
    std::process::exit(finish(st, p.rule, p.assumptions));
}

fn load_known(path: &str, prop: &str) -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(path) else { return vec![] };
    let v: serde_json::Value = serde_json::from_str(&s).expect("known-findings.json");
    v["known"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|k| k["property"] == prop)
                .map(|k| Known { case: k["case"].as_str().unwrap().into(), what: k["what"].as_str().unwrap().into(), note: k["note"].as_str().unwrap_or("").into() })
                .collect()
        })
        .unwrap_or_default()
}
