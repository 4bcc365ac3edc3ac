#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Kept as a script so the text is reviewable."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe}})

prop("C01", "PSBTv2 serialisation is lossless and follows the BIP wire layout",
 "Serialising any PSBTv2 value that the API can build and parsing the bytes gives back an equal value, and the bytes are exactly the key-value pairs which BIP-174, BIP-370, BIP-371 and BIP-375 prescribe for the fields that are set: right key type, key data and value, each pair once, in the right map, terminated maps, maps in transaction order. Equal PSBTs give equal bytes, however they were built. (Proprietary key data is covered up to the library's documented limit of 1024 bytes.)",
 ["inputs"], "every field of the three maps, alone, in every pair of fields, and all together; 0..3 inputs and outputs; boundary values of each scalar and container",
 "Existing tests round-trip a few BIP vectors and three hand-made maps; most fields, field combinations and boundary values are never written, and no test compares the bytes with an independent encoder.",
 ["src/v2/mod.rs", "src/v2/map/global.rs", "src/v2/map/input.rs", "src/v2/map/output.rs", "src/serialize.rs", "src/raw.rs", "src/macros.rs"],
 [("map encoders", "Map::get_pairs for Global, Input, Output"), ("map decoders", "Global::decode, Input::decode, Output::decode"), ("value codecs", "src/serialize.rs")],
 ["Psbt::serialize", "Psbt::deserialize"])

prop("C02", "PSBTv2 parser accepts exactly the well-formed byte strings",
 "The PSBTv2 parser accepts a byte string if and only if it is well formed by BIP-174/370/371/375: correct magic, every required field of each map present, no key repeated within a map, no field that version 2 excludes, key data present exactly for the fields that take it, every value of its field's exact format and length, map counts equal to the declared ones and nothing left over. Two leniencies are deliberate and left open: a declared count may carry bytes after its compact size, and a required height lock time of zero. The order of pairs inside a map never matters to acceptance or to the parsed value.",
 ["inputs"], "for a corpus of well-formed PSBTs covering every field: every single-pair deletion, duplication, key-data and value length change, exclusion, count mismatch, pair permutation, and all pairs of those edits within bounds",
 "Tests cover the BIP's published invalid vectors only; which order, which duplicate and which length is wrong ranges over all fields.",
 ["src/v2/mod.rs", "src/v2/map/global.rs", "src/v2/map/input.rs", "src/v2/map/output.rs", "src/macros.rs", "src/raw.rs", "src/serialize.rs"],
 [("required-field, duplicate and exclusion checks", "Global::decode, Input::insert_pair, Output::insert_pair"), ("pair framing", "raw::Pair::decode, raw::Key::decode")],
 ["Psbt::deserialize"])

prop("C03", "Unknown and proprietary fields survive every role",
 "Pairs whose type the library does not know, and proprietary pairs, in any of the three kinds of map are kept byte for byte through parsing, construction, updating, signing, combining, finalising and serialising, for PSBTv0 and PSBTv2.",
 ["inputs", "histories"], "every unknown key type byte and a set of proprietary prefixes/subtypes in each map, through every sequence of role operations up to the bound",
 "Tests place unknown and proprietary pairs in a couple of fixed PSBTs and only serialise them again; none follows them through a chain of roles.",
 ["src/v2/map/global.rs", "src/v2/map/input.rs", "src/v2/map/output.rs", "src/v0/bitcoin", "src/v0/miniscript", "src/raw.rs"],
 [("unknown and proprietary maps", "unknowns/proprietaries (v2), unknown/proprietary (v0)"), ("finalised input construction", "Input::finalize (v2), finalize_input (v0)")],
 ["serialised bytes after each role", "public unknown/proprietary maps"])

prop("C04", "Hostile bytes never panic, hang or exhaust memory",
 "Parsing any byte string as a PSBT of either version, or as text, returns a value or an error: it never panics, never runs unboundedly and never requests memory out of proportion to the input (beyond the decoders' fixed caps on one declared length, at most 34 MB). Whatever is accepted serialises to bytes that parse again to an equal value.",
 ["inputs"], "all byte strings up to a length bound over a structural alphabet, plus every truncation, every single-byte substitution from a boundary set, and every declared length or count replaced by each boundary integer, over a corpus covering all fields",
 "A test can feed only chosen strings; panics and huge allocations come from particular lengths and counts, and the repository's tests feed very few malformed strings.",
 ["src/raw.rs", "src/serialize.rs", "src/v2/mod.rs", "src/v2/map", "src/v0/bitcoin"],
 [("pair and count decoding", "raw::Key::decode, raw::Pair::decode, Psbt::deserialize"), ("value decoding", "src/serialize.rs, src/v0/bitcoin/serialize.rs")],
 ["Psbt::deserialize (v0, v2)", "allocator requests", "FromStr, serde"])

prop("C05", "Base64, hex and serde forms agree with the binary form",
 "For both PSBT versions, the base64 text and hex text of a PSBT are exactly those encodings of its binary serialisation, parsing base64 text accepts exactly the strings that are canonical base64 of acceptable bytes, and serde serialisation to JSON and to a compact binary format followed by deserialisation gives back an equal PSBT.",
 ["inputs"], "the corpus of field-covering PSBTs, every text encoding, and every single-character edit of the texts from a boundary alphabet",
 "Tests compare single fixed strings; each field has its own serde adapter whose failure shows only when that field is non-empty.",
 ["src/v2/mod.rs", "src/v0/bitcoin/mod.rs", "src/serde_utils.rs", "src/v2/dleq.rs", "src/sighash_type.rs"],
 [("text form", "display_from_str modules"), ("serde adapters", "src/serde_utils.rs, v0 serde_utils, DleqProof, PsbtSighashType")],
 ["Display/FromStr", "serialize_hex", "serde Serialize/Deserialize"])

prop("C06", "PSBTv0 serialisation is lossless and follows the BIP wire layout",
 "Serialising any PSBTv0 value with version zero and one map per transaction input and output, and parsing the bytes gives back an equal value, and the bytes are exactly the key-value pairs which BIP-174 and BIP-371 prescribe for the fields that are set, each pair once, in the right map, maps in transaction order. Equal PSBTs give equal bytes, however they were built. (Proprietary key data is covered up to the library's documented limit of 1024 bytes.)",
 ["inputs"], "every field of the three maps, alone, in every pair, and all together; 0..2 inputs and outputs; boundary values",
 "Existing tests round-trip the BIP vectors and a few hand-made maps; no test compares the bytes of every field with an independent encoder.",
 ["src/v0/bitcoin/mod.rs", "src/v0/bitcoin/map", "src/v0/bitcoin/serialize.rs", "src/v0/bitcoin/macros.rs", "src/v0/bitcoin/raw.rs"],
 [("map encoders", "Map::get_pairs"), ("map decoders", "decode_global, Input::decode, Output::decode")],
 ["v0::Psbt::serialize", "v0::Psbt::deserialize"])

prop("C07", "PSBTv0 parser accepts exactly the well-formed byte strings",
 "The PSBTv0 parser accepts a byte string if and only if it is well formed by BIP-174/371: correct magic, an unsigned transaction with empty scripts and witnesses present, no key repeated within a map, version absent or zero, no field that BIP-370 excludes from version 0, key data present exactly for the fields that take it, every value of its field's exact format and length, one map per transaction input and output and nothing left over. The order of pairs inside a map never matters to acceptance or to the parsed value.",
 ["inputs"], "for a corpus of well-formed PSBTs covering every field: every single-pair deletion, duplication, key-data and value length change, exclusion, map-count mismatch, pair permutation, and pairs of those edits within bounds",
 "Tests cover the BIP's published invalid vectors only; the fault can sit in any field, in any order.",
 ["src/v0/bitcoin/mod.rs", "src/v0/bitcoin/map", "src/v0/bitcoin/serialize.rs", "src/v0/bitcoin/macros.rs"],
 [("required-field and duplicate checks", "decode_global, Input::insert_pair, Output::insert_pair")],
 ["v0::Psbt::deserialize"])

prop("C08", "Raw keys and proprietary keys are exact inverses of each other",
 "Converting a proprietary key to a raw key gives type 0xFC and, as key data, the compact size of the prefix, the prefix, the subtype and the remaining data; converting a raw key back gives an equal proprietary key. A raw key converts to a proprietary key if and only if its type is 0xFC and its data has that form with a minimal compact size that fits the data; everything else is an error, never a panic. This holds for both PSBT versions' raw types and for application-defined subtypes, and the consensus and serde encodings of raw keys, pairs and proprietary keys give back equal values. (Key data up to the documented 1024 bytes.)",
 ["inputs"], "every prefix and data length up to boundary sizes with every subtype; every raw key of at most two bytes of data of every type; every first byte with boundary tails; every truncation",
 "No test converts a proprietary key at all; whether an edge fails depends on lengths and first bytes.",
 ["src/raw.rs", "src/v0/bitcoin/raw.rs", "src/serde_utils.rs"],
 [("conversions", "ProprietaryKey::to_key, TryFrom<Key>"), ("codec", "Encodable and Decodable for ProprietaryKey")],
 ["ProprietaryKey::to_key, TryFrom<Key>", "consensus encoding", "serde"])

prop("R01", "Lock time selection follows BIP-370",
 "The lock time of a PSBTv2 transaction is the BIP-370 one: when some input requires a lock time, a type that every such input supports, height when both would do, and the largest required value of that type; otherwise the fallback lock time, or zero if absent. If one input supports only time and another only height, lock time determination and each role that needs it fail instead of choosing.",
 ["inputs"], "every assignment of absent/boundary time and height requirements to up to 4 inputs, times fallback absent/height/time",
 "Tests check no lock time combination table; the rule quantifies over all inputs jointly.",
 ["src/v2/mod.rs", "src/v2/map/input.rs"],
 [("lock time rule", "Psbt::determine_lock_time and the Input lock time predicates")],
 ["Psbt::determine_lock_time", "Constructor::psbt/updater", "Updater::new", "Signer::new/unsigned_tx", "extracted transaction"])

prop("R02", "Creator and Constructor sequences give the transaction they describe",
 "After any sequence of Creator and Constructor calls the PSBT has the inputs and outputs added, in order, with counts equal to the number of maps, the requested version, fallback lock time and modifiable flags, and every field no call touched keeps its value. A role can be entered only with a PSBT it accepts: constructing on a PSBT whose relevant modifiable flags are unset fails, closing inputs or outputs clears just that flag, and moving on to updating clears both; setting a sequence touches only the indexed input and fails out of range.",
 ["histories"], "every sequence of role operations up to the depth bound from every kind of constructor, including hand-over through serialised bytes between steps",
 "Tests and examples run a few fixed call chains; flag and count errors appear after particular sequences.",
 ["src/v2/mod.rs", "src/v2/map/global.rs", "src/v2/map/input.rs", "src/v2/map/output.rs"],
 [("role types", "Creator, Constructor<T>, Updater"), ("flag bookkeeping", "Global::set_*/clear_*")],
 ["the PSBT each role yields", "errors of role constructors"])

prop("R03", "The unique id depends on the transaction and on nothing else",
 "The id of a PSBTv2 is the txid of its unsigned transaction, with every sequence set to zero and the lock time determined by BIP-370. It is therefore unchanged by adding signatures, scripts, derivations, UTXOs, sequences, final scripts or any other non-transaction field, and it differs whenever the version, an outpoint, an output or the determined lock time differs; all roles report the same id.",
 ["inputs", "histories"], "every field of every map added to a base PSBT singly and in pairs, and every single transaction-affecting change",
 "Tests never compare ids; each field could leak into or be missing from the id.",
 ["src/v2/mod.rs", "src/v2/map/input.rs", "src/v2/map/output.rs", "src/v2/extract.rs", "src/v2/miniscript/finalize.rs"],
 [("identification", "Psbt::id, Psbt::unsigned_tx, Input::unsigned_tx_in")],
 ["Updater::id", "Signer::id", "Finalizer::id", "Extractor::id"])

prop("R04", "Signing updates the transaction-modifiable flags exactly as BIP-370 says",
 "After a PSBTv2 signer adds signatures, inputs-modifiable is cleared unless all of them use ANYONECANPAY, outputs-modifiable is cleared unless all use NONE, has-SIGHASH_SINGLE is set if any uses SINGLE, and no other bit changes. When no signature was added, no flag changes.",
 ["inputs", "histories"], "all 256 initial flag bytes x every standard sighash type x every assignment of sighash types to up to 3 inputs, with and without keys",
 "Tests never vary flags and sighash types together; the rule ranges over every combination of signatures added.",
 ["src/v2/mod.rs", "src/v2/map/global.rs"],
 [("flag rule", "Psbt::clear_tx_modifiable, Signer::sign, Signer::ecdsa_clear_tx_modifiable")],
 ["global.tx_modifiable_flags after signing"])

prop("R05", "A version 0 PSBT is created from, and read with, unsigned transactions only",
 "Creating a version 0 PSBT succeeds for exactly the transactions in which no input has a script signature or a witness, whatever their version, lock time, sequences and numbers of inputs and outputs; the PSBT then holds that very transaction and one empty map for each of its inputs and outputs, writes it in the format without witnesses, reads back equal and extracts the same transaction. Bytes whose transaction has a script signature, or is in the format with witnesses, are refused; a refusal that blames script signatures or witnesses is right about it.",
 ["inputs"], "every assignment of script signatures and witnesses of several shapes to up to 3 inputs x number of outputs; every transaction header around its limits; one spoiled input anywhere in long transactions",
 "Tests try one transaction with a signature; the check must hold whichever input is signed, and in which way.",
 ["src/v0/bitcoin/mod.rs", "src/v0/bitcoin/map/global.rs"],
 [("creation", "v0::bitcoin::Psbt::from_unsigned_tx, unsigned_tx_checks"), ("reading", "v0 Psbt::decode_global")],
 ["v0::bitcoin::Psbt::from_unsigned_tx", "v0::bitcoin::Psbt::deserialize"])

prop("K01", "Combining PSBTv2s is a lossless, order-independent union of one transaction",
 "Combining two PSBTv2s for the same transaction gives one that holds every key-value pair present in either, whichever is first; where they conflict on a key, the result holds one of the two values and every other pair is still kept. Combining is idempotent and, without conflicts, commutative and associative; PSBTs for different transactions are refused, xpub origins that are not one a suffix of the other are refused, and no pair of PSBTs makes it panic.",
 ["inputs", "histories"], "every pair and triple of partial PSBTs obtained by distributing each field (and each pair of fields) to either side, equal or conflicting; every transaction-level difference; all xpub derivation pairs up to length 3",
 "Tests combine a couple of fixed PSBTs; losing one field on one side for one order shows only for that field.",
 ["src/v2/mod.rs", "src/v2/map/global.rs", "src/v2/map/input.rs", "src/v2/map/output.rs", "src/macros.rs"],
 [("merge", "Psbt::combine_with, Global/Input/Output::combine")],
 ["v2::combine, Psbt::combine_with result bytes"])

prop("K02", "Combining PSBTv0s is a lossless, order-independent union of one transaction",
 "Combining two PSBTv0s with the same unsigned transaction gives one that holds every key-value pair present in either, whichever is first; where they conflict on a key, the result holds one of the two values. Combining is idempotent and, without conflicts, commutative and associative; PSBTs for different transactions are refused, inconsistent xpub origins are refused, and no pair of PSBTs makes it panic.",
 ["inputs", "histories"], "every pair and triple of partial PSBTs obtained by distributing each field to either side, equal or conflicting; differing transactions; all xpub derivation pairs up to length 3",
 "Tests combine the BIP vectors and a few hand-made pairs; each field and each order must hold.",
 ["src/v0/bitcoin/mod.rs", "src/v0/bitcoin/map/global.rs", "src/v0/bitcoin/map/input.rs", "src/v0/bitcoin/map/output.rs", "src/v0/bitcoin/macros.rs"],
 [("merge", "v0::Psbt::combine")],
 ["v0::Psbt::combine result bytes"])

prop("S01", "PSBTv2 signatures verify on the transaction later extracted",
 "Every ECDSA signature the PSBTv2 signer adds is valid, under the key it is filed under, for the signature hash of that input in the transaction the extractor will produce, with the input's sighash type; given the scripts of the output spent, signing adds exactly the signatures whose private keys the provider gives for the origins or public keys listed in the input, reports exactly those keys, and changes no other field but the modifiable flags. It reports an error for exactly the ECDSA inputs with a known UTXO that it has a key for but cannot sign, and never panics. The sighash helper gives that same hash.",
 ["inputs"], "every ECDSA output type x funding form x sighash type x sequence/lock time x 1..3 inputs x subset of keys x provider kind, and missing or malformed scripts and UTXOs",
 "Tests sign a handful of fixed inputs; a wrong script code, amount, sequence or index only shows for that combination and only against an independent verification.",
 ["src/v2/mod.rs", "src/v2/map/input.rs"],
 [("sighash selection", "Psbt::sighash_ecdsa, output_type"), ("signing loop", "Psbt::sign, bip32_sign_ecdsa")],
 ["partial signatures", "SigningKeys / SigningErrors"])

prop("S02", "PSBTv0 signatures verify on the transaction later extracted",
 "Every ECDSA or Schnorr signature the PSBTv0 signer adds is valid, under the key it is filed under, for the signature hash of that input in the unsigned transaction with the input's sighash type; given the scripts of the output spent, signing adds exactly the signatures whose private keys the provider gives for the origins (or, for ECDSA, public keys) listed in the input, keeps taproot signatures already there, reports exactly the keys it signed with, changes no other field, and reports an error for each input it has a key for but cannot sign. The sighash helper gives that same hash, and neither panics.",
 ["inputs"], "every output type (including taproot key and script path) x funding form x sighash type x 1..3 inputs x subset of keys x provider kind, and missing scripts and UTXOs",
 "Tests sign a handful of fixed inputs and do not verify signatures independently.",
 ["src/v0/bitcoin/mod.rs"],
 [("sighash selection", "sighash_ecdsa, sighash_taproot, output_type"), ("signing loop", "Psbt::sign")],
 ["partial_sigs, tap_key_sig, tap_script_sigs", "SigningKeys / SigningErrors"])

prop("S03", "Key providers return the requested key or nothing",
 "For both PSBT versions, a key provider asked for a BIP-32 origin or a public key returns the private key for exactly that request, or none: an extended key answers when the requested fingerprint is its own, with the key at the requested path; a set of extended keys answers whenever one member does; a key map answers exactly for the public keys it contains.",
 ["inputs"], "all provider kinds and sizes up to 3 x all requests over own, parent and foreign fingerprints and paths up to depth 3",
 "Tests use single providers with one matching request.",
 ["src/v2/mod.rs", "src/v0/bitcoin/mod.rs"],
 [("lookup", "GetKey impls for Xpriv, sets and maps")],
 ["GetKey::get_key"])

prop("S04", "PSBTv0 pre-signing checks accept honest inputs and reject mismatched ones",
 "The PSBTv0 pre-signing check of an input accepts every input whose UTXO, redeem script and witness script are consistent as BIP-174 requires of a signer, and rejects an input whose previous transaction has another txid, whose redeem script does not hash to the scriptPubKey, whose witness script does not hash to the witness program, or which gives a witness UTXO for a non-witness spend. It never panics.",
 ["inputs"], "every output type x funding form x each script right, wrong or absent x outpoint index in and out of range",
 "The check has almost no tests; each reject rule must fire on its own and none may fire on an honest input.",
 ["src/v0/mod.rs"],
 [("signer checks", "v0::Psbt::signer_checks")],
 ["result of signer_checks"])

prop("F01", "What PSBTv2 finalises and extracts is a consensus-valid transaction",
 "When PSBTv2 finalising succeeds, the extracted transaction spends each UTXO validly under consensus script rules, including lock time and sequence rules, and has exactly the PSBT's outpoints, sequences (final when unset), outputs, version and BIP-370 lock time; finalising keeps the UTXO, transaction-defining, unknown and proprietary fields and drops what BIP-174 says to drop. When the input has enough valid signatures and preimages, and its time locks are met, finalising succeeds; otherwise, and when an ECDSA signature's sighash type is not the one the input asks for, it fails with an error, never a panic.",
 ["inputs"], "every supported output type and script template x funding form x subset of signatures/preimages, valid or corrupted x sequence x lock time x transaction version x 0..3 inputs",
 "Tests finalise one kind of input; validity is a relation between scripts, witnesses, sequences and lock times that needs an independent interpreter and the whole product of cases.",
 ["src/v2/miniscript/finalize.rs", "src/v2/miniscript/satisfy.rs", "src/v2/miniscript/mod.rs", "src/v2/map/input.rs", "src/v2/extract.rs"],
 [("finaliser", "Finalizer::finalize, Input::finalize"), ("satisfier", "InputSatisfier"), ("interpreter check", "Psbt::interpreter_check"), ("extractor", "Extractor::extract_tx_*")],
 ["finalised PSBT", "extracted transaction run in an independent script interpreter"])

prop("F02", "Extraction needs finalised inputs and respects the fee-rate cap",
 "For both PSBT versions, extraction with a limit fails if and only if the fee per 1000 weight units, rounded down, exceeds the limit, stating that rate in the error, uses 25000 sat/vB as the default limit, fails if a needed UTXO is missing, and fails if outputs exceed inputs (amounts up to the money supply); unchecked extraction gives the same transaction without these limits. A PSBTv2 with an input lacking a final scriptSig or final witness field cannot enter extraction.",
 ["inputs"], "fees at, one below and one above each limit x limits x weights x input counts x missing UTXOs x finalised subsets",
 "Tests check one v0 fee-rate; boundaries and the v2 path are untested.",
 ["src/v2/extract.rs", "src/v0/bitcoin/mod.rs"],
 [("fee-rate guard", "internal_extract_tx_with_fee_rate_limit"), ("entry guard", "Extractor::new")],
 ["extract results and errors"])

prop("F03", "Fee and funding UTXO lookups are exact",
 "For both PSBT versions the fee is exactly the sum of the spent UTXO values less the sum of the outputs, and is an error, never a wrapped or truncated number, when a sum overflows, outputs exceed inputs, a UTXO is missing or an outpoint index is out of range. The UTXO found for an input is the one its outpoint names.",
 ["inputs"], "0..3 inputs and outputs x boundary amounts up to 2^64-1 x funding forms x outpoint indices in and out of range",
 "Tests use a few small amounts; overflow and index errors live at the boundaries.",
 ["src/v2/mod.rs", "src/v2/map/input.rs", "src/v0/bitcoin/mod.rs"],
 [("fee", "Psbt::fee"), ("UTXO lookup", "Input::funding_utxo, iter_funding_utxos, spend_utxo")],
 ["fee, iter_funding_utxos"])

prop("F04", "What PSBTv0 finalises and extracts is a consensus-valid transaction",
 "When PSBTv0 miniscript finalising succeeds, the extracted transaction spends each UTXO validly under consensus script rules, including lock time and sequence rules, and equals the unsigned transaction except for scripts and witnesses; when an input has enough valid signatures and preimages, and its time locks are met, finalising succeeds. Otherwise it reports an error for that input and leaves it as it was, and the finalising, extracting and sighash helpers never panic.",
 ["inputs"], "every supported output type and script template x funding form x subset of signatures/preimages, valid or corrupted x sequence x lock time x version x 0..3 inputs x entry point",
 "Tests finalise a few fixed PSBTs and mostly compare bytes, not consensus validity.",
 ["src/v0/miniscript/finalizer.rs", "src/v0/miniscript/mod.rs", "src/v0/bitcoin/mod.rs"],
 [("finaliser", "PsbtExt::finalize*_mut"), ("satisfier", "PsbtInputSatisfier"), ("interpreter check", "interpreter_check"), ("extract", "PsbtExt::extract")],
 ["finalised PSBT", "extracted transaction run in an independent script interpreter"])

prop("F05", "Descriptor updates record exactly what the descriptor implies",
 "Updating a PSBTv0 input or output with a definite descriptor succeeds exactly when the descriptor derives the script actually spent or paid and the UTXO information is consistent with the outpoint; it then records the redeem and witness scripts, key origins and taproot data the descriptor implies and touches nothing else. On failure nothing changes, and it never panics.",
 ["inputs"], "every descriptor kind x matching and mismatching scripts x funding forms (right, wrong, absent, out of range) x input and output",
 "Tests update a few fixed descriptors on the success path.",
 ["src/v0/miniscript/mod.rs"],
 [("update", "update_input_with_descriptor, update_output_with_descriptor, update_item_with_descriptor_helper")],
 ["resulting input/output map"])

prop("F06", "The version 0 satisfier answers with the data of its own input",
 "A PsbtInputSatisfier made for an input of a version 0 PSBT answers each question of a miniscript satisfier with the signature, public key, script or preimage that input holds for exactly the key, key hash, leaf or hash asked about, whatever the other inputs hold, and with none where it holds none; preimages are given only if they are 32 bytes long. It says an absolute lock is met exactly when the transaction's lock time is of the same unit and not smaller and the input's sequence is not final, and a relative lock exactly when the transaction version is at least 2 and the input's sequence is a relative lock of the same unit that is not smaller.",
 ["inputs"], "every distribution of signatures, scripts, origins and preimages over up to three inputs (four in the thorough tier) with every question; all boundary lock times and sequences of two inputs with every boundary lock",
 "Tests finalise a few PSBTs in which only one input holds the data asked for.",
 ["src/v0/miniscript/mod.rs"],
 [("look-ups", "Satisfier for PsbtInputSatisfier"), ("time locks", "check_after, check_older")],
 ["answers of the Satisfier methods"])

prop("W01", "Every schedule of a PSBTv2 session ends in the same valid transaction",
 "Take any number of parties that share the description of one transaction and learn true facts about it in any order (funding UTXOs, scripts, key origins, preimages, signatures by others, unrelated fields), and let them sign, hand over copies as bytes or text, and combine in any order and as often as they like. Then what a party holds depends only on the set of facts that reached it: it is the union, with exactly the signatures its facts allow, and every signature is valid. A copy can be finalised if and only if its facts satisfy every input. Once finalised it stays so: combining it with any earlier or later copy, in either order, or with another finalised copy, still gives a PSBT from which a transaction can be extracted that is valid under consensus rules and is the one described.",
 ["histories", "schedules"], "all reachable sets of facts of each session (one to three inputs, up to twelve facts) and every action from each: adding a fact, signing with each key and all keys, combining with every other reachable state, finalising, combining the final PSBT with other states and with other final ones, signing and finalising again",
 "Tests run one fixed order of roles; the number of orders is exponential and a fault may need one particular order, such as a late combination with a finalised copy.",
 ["src/v2/mod.rs", "src/v2/map/input.rs", "src/v2/map/global.rs", "src/v2/map/output.rs", "src/v2/miniscript", "src/v2/extract.rs"],
 [("signing", "Signer::sign"), ("combining", "v2::combine, Input::combine"), ("finalising and extracting", "Finalizer, Extractor")],
 ["Signer::sign", "combine", "Finalizer::finalize", "Extractor", "Psbt::serialize and Display"])

prop("W02", "Every schedule of a PSBTv0 session ends in the same valid transaction",
 "Take any number of parties that share one unsigned transaction and learn true facts about it in any order (funding UTXOs, scripts, key origins, preimages, descriptors, unrelated fields), and let them update, sign, hand over copies as bytes or text, and combine in any order and as often as they like. Then what a party holds depends only on the set of facts that reached it: it is the union, with exactly the signatures its facts allow, and every signature is valid. An input of a copy can be finalised if and only if its facts satisfy it, independently of the other inputs. Once finalised an input stays so: combining with any earlier or later copy, in either order, or with another finalised copy, and signing and finalising the rest later, still ends in a PSBT whose extracted transaction is valid under consensus rules and is the unsigned transaction with its scripts.",
 ["histories", "schedules"], "all reachable sets of facts of each session (one to three inputs, up to twelve facts) and every action from each: adding a fact, descriptor update, signing with each key and all keys, combining with every other reachable state, finalising in part or in full, combining the (partly) final PSBT with other states and with other final ones, signing and finalising again",
 "Tests run one fixed order of roles; the number of orders is exponential and a fault may need one particular order, such as finalising one input before another is signed.",
 ["src/v0/bitcoin/mod.rs", "src/v0/bitcoin/map", "src/v0/miniscript/mod.rs", "src/v0/miniscript/finalizer.rs"],
 [("signing", "Psbt::sign"), ("combining", "Psbt::combine, Input::combine"), ("finalising and extracting", "PsbtExt::finalize_mut, finalize_mall_mut, extract"), ("descriptor update", "PsbtExt::update_input_with_descriptor")],
 ["Psbt::sign", "Psbt::combine", "PsbtExt", "Psbt::serialize and Display"])

prop("B01", "Silent payment fields obey BIP-375 pairing and format rules",
 "In a PSBTv2 map, ECDH shares and DLEQ proofs are accepted only when both kinds are present or both absent, keys and shares must be 33-byte compressed keys and proofs 64 bytes, silent payment info is 66 bytes, and a label needs info beside it; an output may omit its script only under these rules. Accepted values are kept unchanged through parsing, combining and serialising, and a proof value converts only from exactly 64 bytes.",
 ["inputs"], "every presence pattern of the fields in each map x lengths around the required ones x duplicate keys x combine sides",
 "Tests check one or two patterns; presence and length rules range over each map and field.",
 ["src/v2/dleq.rs", "src/v2/map/global.rs", "src/v2/map/input.rs", "src/v2/map/output.rs", "src/macros.rs"],
 [("pairing checks", "Global::decode, Input::decode, Output::decode"), ("proof type", "DleqProof")],
 ["Psbt::deserialize / serialize", "DleqProof conversions"])

prop("E01", "Every reported error can be displayed and traced to its cause",
 "Every error value the library returns can be formatted for display and debugging and asked for its source chain without panicking; its message is not empty, an error that wraps another carries that one's message in its own or in its source chain, and different variants of an error type do not read the same.",
 ["inputs"], "every variant of every public error type, built from the leaves up with every wrapped error inside, and every error value produced in the enumerations of the other checks",
 "Tests unwrap or compare errors but never format most of them.",
 ["src/error.rs", "src/v2/error.rs", "src/v2/extract.rs", "src/v2/mod.rs", "src/v2/map", "src/v2/miniscript", "src/v0"],
 [("error formatting", "Display and Error impls")],
 ["Display, Debug, Error::source"])

prop("E02", "What an error says about what is wrong is true",
 "An error that names a position, key, length, version, sighash type, public key, script, extended key, transaction, PSBT or fee rate names that of the faulty element and never another one: errors about an index give the index asked for and the real length; decoding errors give the offending pair's key, the kind of map it is in, and its actual and expected lengths; errors combining PSBTs give the two values that differ, or the extended key in conflict; finalising, interpreter and extraction errors give the faulty input, script, signature's key and sighash types; fee errors give the real fee rate, limit, transaction or untouched PSBT. Signing and version 0 finalising, which report for each input, report the faulty inputs and no others.",
 ["inputs"], "one or two faults of every kind at every position of PSBTs of up to three inputs and at the positions around byte limits of one with 300; every pair of the field tables spoilt in some fifteen ways in every map",
 "Tests look at the variant of an error in PSBTs with one or two inputs, where a wrong index or a swapped pair of values does not show.",
 ["src/error.rs", "src/macros.rs", "src/v2/error.rs", "src/v2/extract.rs", "src/v2/mod.rs", "src/v2/map", "src/v2/miniscript", "src/v0"],
 [("positions", "IndexOutOfBoundsError, FinalizeError, InterpreterCheckInputError, PartialSigsSighashTypeError, SigningErrors"), ("pairs", "InsertPairError"), ("values", "CombineError, FundingUtxoError, ExtractTxFeeRateError, ExtractTxError, InputError")],
 ["fields of error values"])

prop("T01", "Sighash type and version conversions are exact inverses",
 "Each standard sighash type converts to its BIP number, text and back unchanged; every 32-bit number is kept exactly by the PSBT sighash type, converts to an ECDSA or taproot type exactly when it is that type's standard number, and its text form parses back to the same value; only 0 and 2 are PSBT versions.",
 ["inputs"], "all 2^32 numbers (thorough) or all numbers below 2^17 and around each boundary (quick), all standard types, all short texts over the token alphabet",
 "Tests try the standard values and one or two others.",
 ["src/sighash_type.rs", "src/version.rs", "src/v0/bitcoin/map/input.rs"],
 [("conversions", "PsbtSighashType (v0 and v2), Version")],
 ["conversion results, Display, FromStr"])

# Decided for the crate without `silent-payments` and with `rand` as well (PLAIN in run.sh).
for p in P:
    if p["id"] in "C01 C02 C03 C05 K01 R02 S02 E02".split():
        p["quantifier"]["over"].append("configurations")
        p["quantifier"]["text"] += "; with all features, and with the default features and rand"

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
