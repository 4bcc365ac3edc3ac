//! E01: every error value can be shown and traced.
//!
//! Two enumerations. The first builds every public error type from the leaves up: every variant, with
//! every error of the wrapped type inside it (so chains of every shape appear), and for plain payloads
//! the values that could matter. The second runs the other properties' enumerations in a mode where every
//! error value the library really returns is put through the same check.
use crate::run::*;
use crate::*;
use psbt_v2::{bitcoin, miniscript};
use crate::util::{pk as upk, xpub as uxpub};
use bitcoin::bip32;
use bitcoin::consensus::encode as enc;
use bitcoin::hashes::{self, Hash};
use bitcoin::secp256k1;
use bitcoin::sighash::{self, EcdsaSighashType as E};
use bitcoin::taproot::{LeafVersion, TapNodeHash, TapTree, TaprootBuilder};
use bitcoin::{absolute, Amount, ScriptBuf, Transaction};
use psbt_v2::{raw, serialize, v0, v2, FeeError, FundingUtxoError, InconsistentKeySourcesError, Version};
use std::error::Error as StdError;
use std::fmt::{Debug, Display};

/// An error together with the text of the error it wraps, if it wraps one, and the name of its variant.
pub struct B<T> {
    e: T,
    inner: Option<String>,
    variant: String,
}
fn name(d: &str) -> String { d.split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("").to_string() }
fn leaf<T: Debug>(e: T) -> B<T> {
    let variant = name(&format!("{:?}", e));
    B { e, inner: None, variant }
}
fn wrap<T: Debug, I: Display>(i: I, f: impl Fn(I) -> T) -> B<T> {
    let inner = Some(i.to_string());
    let e = f(i);
    let variant = name(&format!("{:?}", e));
    B { e, inner, variant }
}
fn wraps<T: Debug, I: Display>(v: Vec<I>, f: impl Fn(I) -> T) -> Vec<B<T>> { v.into_iter().map(|i| wrap(i, &f)).collect() }
fn vals<T>(v: Vec<B<T>>) -> Vec<T> { v.into_iter().map(|b| b.e).collect() }

/// Every message from the error down its chain.
fn chain(e: &dyn StdError) -> Vec<String> {
    let mut out = vec![e.to_string()];
    let mut cur = e.source();
    while let Some(s) = cur {
        out.push(s.to_string());
        if out.len() > 20 {
            break;
        }
        cur = s.source();
    }
    out
}

/// The check for one type: every value displays, wraps what it says it wraps, and no two variants read alike.
fn all<T: StdError>(ctx: &Ctx, ty: &'static str, v: Vec<B<T>>) {
    let mut texts: Vec<(String, String)> = vec![];
    for (i, b) in v.iter().enumerate() {
        texts.push((b.variant.clone(), b.e.to_string()));
        ctx.case(
            || format!("built {} {} {}", ty, b.variant, i),
            |ctx| {
                ctx.err(&b.e)?;
                ctx.own();
                ctx.outcome(&format!("built {} {}", ty, b.variant));
                if let Some(inner) = &b.inner {
                    let c = chain(&b.e);
                    ctx.validated();
                    if !c.iter().any(|m| m.contains(inner.as_str())) {
                        return Err(format!(
                            "the cause is lost: neither the message nor the source chain {:?} of {:?} carries \"{}\"",
                            c, b.e, inner
                        ));
                    }
                }
                Ok(())
            },
        );
    }
    for (i, (va, ta)) in texts.iter().enumerate() {
        // One value of each variant, against every value of the others.
        if texts[..i].iter().any(|(v, _)| v == va) {
            continue;
        }
        ctx.case(
            || format!("told apart {} {}", ty, va),
            |ctx| {
                ctx.own();
                for (vb, tb) in &texts {
                    ctx.step();
                    if va != vb && ta == tb {
                        return Err(format!("{} and {} of {} read the same: \"{}\"", va, vb, ty, ta));
                    }
                }
                Ok(())
            },
        );
    }
}

fn secp() -> Vec<secp256k1::Error> {
    use secp256k1::Error::*;
    vec![
        IncorrectSignature,
        InvalidMessage,
        InvalidPublicKey,
        InvalidSignature,
        InvalidSecretKey,
        InvalidSharedSecret,
        InvalidRecoveryId,
        InvalidTweak,
        NotEnoughMemory,
        InvalidPublicKeySum,
        InvalidEllSwift,
    ]
}
fn from_slice() -> Vec<bitcoin::key::FromSliceError> {
    let mut v = vec![];
    for b in [vec![], vec![2], vec![0; 32], vec![5; 33], vec![2; 34], vec![4; 65], vec![255; 65], {
        let mut k = vec![2];
        k.extend([255; 32]);
        k
    }] {
        if let Err(e) = bitcoin::PublicKey::from_slice(&b) {
            v.push(e)
        }
    }
    v
}
fn hash_slice() -> Vec<hashes::FromSliceError> {
    [0usize, 1, 31, 33].iter().filter_map(|n| hashes::sha256::Hash::from_slice(&vec![7; *n]).err()).collect()
}
fn consensus() -> Vec<enc::Error> {
    use enc::Error::*;
    vec![
        Io(bitcoin::io::Error::new(bitcoin::io::ErrorKind::UnexpectedEof, "short")),
        Io(bitcoin::io::ErrorKind::Other.into()),
        OversizedVectorAllocation { requested: usize::MAX, max: 0 },
        InvalidChecksum { expected: [0; 4], actual: [255; 4] },
        NonMinimalVarInt,
        ParseFailed("some reason"),
        UnsupportedSegwitFlag(0),
        UnsupportedSegwitFlag(255),
    ]
}
fn nonstd() -> Vec<sighash::NonStandardSighashTypeError> {
    [0, 4, 0x80, 0x84, 255, u32::MAX].iter().filter_map(|n| E::from_standard(*n).err()).collect()
}
fn ecdsa() -> Vec<bitcoin::ecdsa::Error> {
    let mut v = vec![bitcoin::ecdsa::Error::EmptySignature];
    v.extend(nonstd().into_iter().map(bitcoin::ecdsa::Error::SighashType));
    v.extend(secp().into_iter().map(bitcoin::ecdsa::Error::Secp256k1));
    v
}
fn tapsig() -> Vec<bitcoin::taproot::SigFromSliceError> {
    let mut v = vec![];
    for b in [vec![], vec![1], vec![1; 63], vec![1; 66], {
        let mut s = vec![1; 64];
        s.push(0x84);
        s
    }] {
        if let Err(e) = bitcoin::taproot::Signature::from_slice(&b) {
            v.push(e)
        }
    }
    v
}
fn builders() -> Vec<bitcoin::taproot::IncompleteBuilderError> {
    let s = ScriptBuf::new();
    let mut v = vec![];
    let hidden = TapNodeHash::from_byte_array([7; 32]);
    for b in [
        TaprootBuilder::new(),
        TaprootBuilder::new().add_leaf(1, s.clone()).unwrap(),
        TaprootBuilder::new().add_hidden_node(1, hidden).unwrap().add_leaf(1, s.clone()).unwrap(),
        TaprootBuilder::new().add_leaf_with_ver(1, s, LeafVersion::from_consensus(0xC2).unwrap()).unwrap(),
    ] {
        if let Err(e) = TapTree::try_from(b) {
            v.push(e)
        }
    }
    v
}
fn locks() -> Vec<absolute::ConversionError> {
    let mut v = vec![];
    for n in [500_000_000u32, u32::MAX] {
        v.extend(absolute::Height::from_consensus(n).err())
    }
    for n in [0u32, 499_999_999] {
        v.extend(absolute::Time::from_consensus(n).err())
    }
    v
}
fn versions() -> Vec<psbt_v2::UnsupportedVersionError> {
    [1u32, 3, 255, u32::MAX].iter().filter_map(|n| Version::try_from(*n).err()).collect()
}
fn bip32s() -> Vec<bip32::Error> {
    use bip32::Error::*;
    let mut v = vec![
        CannotDeriveFromHardenedKey,
        MaximumDepthExceeded,
        InvalidChildNumber(u32::MAX),
        InvalidChildNumberFormat,
        InvalidDerivationPathFormat,
        UnknownVersion([0, 255, 0, 255]),
        WrongExtendedKeyLength(0),
        InvalidPublicKeyHexLength(1),
    ];
    v.extend(secp().into_iter().map(Secp256k1));
    v
}
fn tx(n: usize) -> Transaction {
    Transaction {
        version: bitcoin::transaction::Version(n as i32),
        lock_time: absolute::LockTime::ZERO,
        input: vec![Default::default(); n],
        output: vec![],
    }
}
/// Index errors, as the sighash code itself reports them.
fn indexes() -> Vec<bitcoin::transaction::InputsIndexError> {
    [(0usize, 0usize), (0, 3), (1, 1), (2, usize::MAX)].iter().filter_map(|(n, i)| tx(*n).tx_in(*i).err()).collect()
}
fn p2wpkhs() -> Vec<sighash::P2wpkhError> {
    let mut v = vec![sighash::P2wpkhError::NotP2wpkhScript];
    v.extend(indexes().into_iter().map(sighash::P2wpkhError::Sighash));
    v
}
fn taproots() -> Vec<sighash::TaprootError> {
    use sighash::TaprootError::*;
    let mut v = vec![InvalidSighashType(0), InvalidSighashType(u32::MAX)];
    v.push(PrevoutsIndex(sighash::PrevoutsIndexError::InvalidAllIndex));
    v.extend(indexes().into_iter().map(InputsIndex));
    let t = tx(2);
    let prevs = [bitcoin::TxOut::NULL, bitcoin::TxOut::NULL];
    let mut c = sighash::SighashCache::new(&t);
    use bitcoin::TapSighashType as T;
    v.extend(c.taproot_key_spend_signature_hash(1, &sighash::Prevouts::All(&prevs), T::Single).err());
    v.extend(c.taproot_key_spend_signature_hash(0, &sighash::Prevouts::All(&prevs[..1]), T::All).err());
    v.extend(c.taproot_key_spend_signature_hash(0, &sighash::Prevouts::One(0, &prevs[0]), T::All).err());
    v
}
fn scripts() -> Vec<ScriptBuf> {
    vec![ScriptBuf::new(), ScriptBuf::from_bytes(vec![0x6a, 0x4c]), ScriptBuf::from_bytes(vec![0x51]), ScriptBuf::from_bytes(vec![255; 300])]
}
fn pk() -> bitcoin::PublicKey { upk(1) }
fn xpub() -> bip32::Xpub { uxpub(1) }
fn keys() -> Vec<raw::Key> {
    let mut v = vec![];
    for t in 0..=255u8 {
        for k in [vec![], vec![0], vec![255; 33]] {
            v.push(raw::Key { type_value: t, key: k })
        }
    }
    v
}
fn keys0() -> Vec<v0::bitcoin::raw::Key> {
    keys().into_iter().map(|k| v0::bitcoin::raw::Key { type_value: k.type_value, key: k.key }).collect()
}
const SIZES: [usize; 4] = [0, 1, 78, usize::MAX];

fn ser() -> Vec<B<serialize::Error>> {
    use serialize::Error::*;
    let mut v = vec![
        leaf(NotEnoughData),
        leaf(InvalidProprietaryKey),
        leaf(NoMorePairs),
        leaf(InvalidXOnlyPublicKey),
        leaf(InvalidControlBlock),
        leaf(InvalidLeafVersion),
        leaf(Taproot("some reason")),
        leaf(PartialDataConsumption),
    ];
    v.extend([0u32, 0x84, u32::MAX].map(|n| leaf(NonStandardSighashType(n))));
    v.extend(wraps(hash_slice(), InvalidHash));
    v.extend(wraps(consensus(), ConsensusEncoding));
    v.extend(wraps(from_slice(), InvalidPublicKey));
    v.extend(wraps(secp(), InvalidSecp256k1PublicKey));
    v.extend(wraps(ecdsa(), InvalidEcdsaSignature));
    v.extend(wraps(tapsig(), InvalidTaprootSignature));
    v.extend(wraps(builders(), TapTree));
    v.extend(wraps(locks(), LockTime));
    v.extend(wraps(versions(), UnsupportedVersion));
    #[cfg(feature = "sp")]
    for got in SIZES {
        v.push(leaf(InvalidScanKey { got, expected: 33 }));
        v.push(leaf(InvalidEcdhShare { got, expected: 33 }));
        v.push(wrap(v2::dleq::InvalidLengthError { got, expected: 64 }, InvalidDleqProof).cause_facts(got));
    }
    v
}
impl<T> B<T> {
    /// The wrapped error may be told by its facts instead of its words.
    fn cause_facts(mut self, n: usize) -> Self {
        self.inner = Some(n.to_string());
        self
    }
}
fn g_pair() -> Vec<B<v2::global::InsertPairError>> {
    use v2::global::InsertPairError::*;
    let mut v = vec![leaf(XpubInvalidFingerprint), leaf(InvalidProprietaryKey)];
    v.extend(keys().into_iter().flat_map(|k| [leaf(DuplicateKey(k.clone())), leaf(InvalidKeyDataEmpty(k.clone())), leaf(InvalidKeyDataNotEmpty(k))]));
    v.extend(wraps(vals(ser()), Deser));
    v.extend(wraps(consensus(), Consensus));
    v.extend(wraps(bip32s(), Bip32));
    for n in SIZES {
        v.push(leaf(ValueWrongLength(n, 4)));
        v.push(leaf(KeyWrongLength(n, 4)));
        v.push(leaf(XpubInvalidPath(n)));
    }
    v.extend([0, 1, 3, u32::MAX].map(|n| leaf(WrongVersion(n))));
    for p in ["m", "m/0", "m/0'/2147483647'/5"] {
        v.push(leaf(DuplicateXpub((Default::default(), p.parse().unwrap()))))
    }
    v.extend((0..=255).map(|key_type_value| leaf(ExcludedKey { key_type_value })));
    v
}
fn i_pair() -> Vec<B<v2::input::InsertPairError>> {
    use v2::input::InsertPairError::*;
    let mut v = vec![];
    v.extend(keys().into_iter().flat_map(|k| [leaf(DuplicateKey(k.clone())), leaf(InvalidKeyDataEmpty(k.clone())), leaf(InvalidKeyDataNotEmpty(k))]));
    v.extend(wraps(vals(ser()), Deser));
    for n in SIZES {
        v.push(leaf(ValueWrongLength(n, 4)));
        v.push(leaf(KeyWrongLength(n, 4)));
    }
    v
}
fn o_pair() -> Vec<B<v2::output::InsertPairError>> {
    use v2::output::InsertPairError::*;
    let mut v = vec![];
    v.extend(keys().into_iter().flat_map(|k| [leaf(DuplicateKey(k.clone())), leaf(InvalidKeyDataEmpty(k.clone())), leaf(InvalidKeyDataNotEmpty(k))]));
    v.extend(wraps(vals(ser()), Deser));
    v.extend(SIZES.map(|n| leaf(ValueWrongLength(n, 4))));
    v
}
fn g_dec() -> Vec<B<v2::global::DecodeError>> {
    use v2::global::DecodeError::*;
    let mut v = vec![leaf(MissingVersion), leaf(MissingTxVersion), leaf(MissingInputCount), leaf(MissingOutputCount), leaf(FieldMismatch)];
    for n in [0, u64::MAX] {
        v.push(leaf(InputCountOverflow(n)));
        v.push(leaf(OutputCountOverflow(n)));
    }
    v.extend(wraps(vals(g_pair()), InsertPair));
    v.extend(wraps(vals(ser()), DeserPair));
    v
}
fn i_dec() -> Vec<B<v2::input::DecodeError>> {
    use v2::input::DecodeError::*;
    let mut v = vec![leaf(MissingPreviousTxid), leaf(MissingSpentOutputIndex), leaf(FieldMismatch)];
    v.extend(wraps(vals(i_pair()), InsertPair));
    v.extend(wraps(vals(ser()), DeserPair));
    v
}
fn o_dec() -> Vec<B<v2::output::DecodeError>> {
    use v2::output::DecodeError::*;
    let mut v = vec![leaf(MissingValue), leaf(MissingScriptPubkey), leaf(LabelWithoutInfo)];
    v.extend(wraps(vals(o_pair()), InsertPair));
    v.extend(wraps(vals(ser()), DeserPair));
    v
}
fn deser() -> Vec<B<v2::DeserializeError>> {
    use v2::DeserializeError::*;
    let mut v = vec![leaf(InvalidMagic), leaf(InvalidSeparator), leaf(NoMorePairs), leaf(TrailingData)];
    v.extend(wraps(vals(g_dec()), DecodeGlobal));
    v.extend(wraps(vals(i_dec()), DecodeInput));
    v.extend(wraps(vals(o_dec()), DecodeOutput));
    v
}
fn dec() -> Vec<B<v2::DecodeError>> {
    use v2::DecodeError::*;
    let mut v = vec![leaf(InvalidMagic), leaf(InvalidSeparator), leaf(NoMorePairs)];
    v.extend(wraps(vals(g_dec()), Global));
    v.extend(wraps(vals(i_dec()), Input));
    v.extend(wraps(vals(o_dec()), Output));
    v
}
fn base64() -> Vec<bitcoin::base64::DecodeError> {
    use bitcoin::base64::DecodeError::*;
    vec![InvalidByte(0, 0), InvalidByte(usize::MAX, 255), InvalidLength, InvalidLastSymbol(3, b'='), InvalidPadding]
}
fn funding() -> Vec<B<FundingUtxoError>> {
    let mut v = vec![leaf(FundingUtxoError::MissingUtxo)];
    for n in SIZES {
        v.push(leaf(FundingUtxoError::OutOfBounds { vout: n, len: 0 }));
        v.push(leaf(FundingUtxoError::OutOfBounds { vout: n, len: n }));
    }
    v
}
fn fee() -> Vec<B<FeeError>> {
    use FeeError::*;
    let mut v = vec![leaf(InputOverflow), leaf(OutputOverflow), leaf(Negative)];
    v.extend(wraps(vals(funding()), FundingUtxo));
    v
}
/// A lock-time conflict, as the library reports it.
fn conflict() -> Vec<v2::DetermineLockTimeError> {
    let mut q = v2::Creator::new().psbt();
    let mk = |h: Option<u32>, t: Option<u32>, n: u8| {
        let mut i = v2::Input::new(&bitcoin::OutPoint { txid: bitcoin::Txid::from_byte_array([n; 32]), vout: 0 });
        i.min_height = h.map(|h| absolute::Height::from_consensus(h).unwrap());
        i.min_time = t.map(|t| absolute::Time::from_consensus(t).unwrap());
        i
    };
    q.inputs = vec![mk(Some(5), None, 1), mk(None, Some(500_000_001), 2)];
    q.global.input_count = 2;
    q.determine_lock_time().err().into_iter().collect()
}
fn idx() -> Vec<B<v2::IndexOutOfBoundsError>> {
    use v2::IndexOutOfBoundsError::*;
    SIZES.iter().flat_map(|n| [leaf(Inputs { index: *n, length: 0 }), leaf(Count { index: *n, count: 0 })]).collect()
}
fn sign() -> Vec<B<v2::SignError>> {
    use v2::SignError::*;
    let mut v = vec![
        leaf(InvalidSighashType),
        leaf(MissingInputUtxo),
        leaf(MissingRedeemScript),
        leaf(MissingWitnessScript),
        leaf(MismatchedAlgoKey),
        leaf(NotEcdsa),
        leaf(NotWpkh),
        leaf(UnknownOutputType),
        leaf(KeyNotFound),
        leaf(WrongSigningAlgorithm),
        leaf(Unsupported),
    ];
    v.extend(wraps(vals(idx()), IndexOutOfBounds));
    v.extend(wraps(vals(funding()), FundingUtxo));
    v.extend(wraps(indexes(), SegwitV0Sighash));
    v.extend(wraps(p2wpkhs(), P2wpkhSighash));
    v.extend(wraps(taproots(), TaprootError));
    v
}
fn psst() -> Vec<B<v2::PartialSigsSighashTypeError>> {
    use v2::PartialSigsSighashTypeError::*;
    let mut v = vec![];
    for input_index in SIZES {
        v.extend(nonstd().into_iter().flat_map(|e| {
            [
                wrap(e.clone(), |error| NonStandardInputSighashType { input_index, error }),
                wrap(e, |error| NonStandardPartialSigsSighashType { input_index, error }),
            ]
        }));
        for got in [E::All, E::NonePlusAnyoneCanPay] {
            v.push(leaf(WrongSighashFlag { input_index, got, required: E::Single, pubkey: pk() }))
        }
    }
    v
}
fn ms() -> Vec<miniscript::Error> {
    use miniscript::Error::*;
    let mut v = vec![
        NonMinimalVerify("x".into()),
        InvalidPush(vec![1, 2]),
        CmsTooManyKeys(21),
        MultiATooManyKeys(u64::MAX),
        Unprintable(0),
        ExpectedChar('x'),
        UnexpectedStart,
        Unexpected("y".into()),
        MultiColon("y".into()),
        AtOutsideOr("y".into()),
        UnknownWrapper('q'),
        NonTopLevel("y".into()),
        Trailing("y".into()),
        MissingSig(pk()),
        CouldNotSatisfy,
        TypeCheck("y".into()),
        BadDescriptor("y".into()),
        MaxRecursiveDepthExceeded,
        NonStandardBareScript,
        ImpossibleSatisfaction,
        BareDescriptorAddr,
        TrNoScriptCode,
        MultipathDescLenMismatch,
    ];
    v.extend(secp().into_iter().map(Secp));
    v
}
fn interps() -> Vec<miniscript::interpreter::Error> {
    use miniscript::interpreter::Error::*;
    let mut v = vec![
        AbsoluteLockTimeNotMet(absolute::LockTime::ZERO),
        AbsoluteLockTimeComparisonInvalid(absolute::LockTime::ZERO, absolute::LockTime::ZERO),
        CannotInferTrDescriptors,
        ControlBlockVerificationError,
        CouldNotEvaluate,
        ExpectedPush,
        HashPreimageLengthMismatch,
        IncorrectPubkeyHash,
        IncorrectScriptHash,
        IncorrectWPubkeyHash,
        IncorrectWScriptHash,
        InsufficientSignaturesMultiSig,
        InvalidSchnorrSighashType(vec![1]),
        InvalidEcdsaSignature(pk()),
        InvalidSchnorrSignature(pk().inner.x_only_public_key().0),
        NonStandardSighash(vec![1]),
        MissingExtraZeroMultiSig,
        MultiSigEvaluationError,
        NonEmptyWitness,
        NonEmptyScriptSig,
        PubkeyParseError,
        XOnlyPublicKeyParseError,
        ScriptSatisfactionError,
    ];
    v.extend(ecdsa().into_iter().map(EcdsaSig));
    v.extend(secp().into_iter().map(Secp));
    v.extend(ms().into_iter().map(Miniscript));
    v
}

macro_rules! input_errors {
    ($t:path) => {{
        use $t::*;
        let mut v = vec![
            leaf(CouldNotSatisfyTr),
            leaf(MissingRedeemScript),
            leaf(MissingWitness),
            leaf(MissingPubkey),
            leaf(MissingWitnessScript),
            leaf(MissingUtxo),
            leaf(NonEmptyWitnessScript),
            leaf(NonEmptyRedeemScript),
            leaf(InvalidSignature { pubkey: pk(), sig: vec![] }),
            leaf(InvalidSignature { pubkey: pk(), sig: vec![1; 72] }),
        ];
        for s in scripts() {
            v.push(leaf(InvalidRedeemScript { redeem: s.clone(), p2sh_expected: s.clone() }));
            v.push(leaf(InvalidWitnessScript { witness_script: s.clone(), p2wsh_expected: s }));
        }
        for got in [E::All, E::NonePlusAnyoneCanPay] {
            v.push(leaf(WrongSighashFlag { got, required: E::Single, pubkey: pk() }))
        }
        v.extend(wraps(secp(), SecpErr));
        v.extend(wraps(from_slice(), KeyErr));
        v.extend(wraps(interps(), Interpreter));
        v.extend(wraps(ms(), MiniscriptError));
        v.extend(wraps(nonstd(), NonStandardSighashType));
        v
    }};
}
fn in2() -> Vec<B<v2::InputError>> { input_errors!(v2::InputError) }
fn in0() -> Vec<B<v0::miniscript::InputError>> { input_errors!(v0::miniscript::InputError) }

fn interp_in() -> Vec<B<v2::InterpreterCheckInputError>> {
    use v2::InterpreterCheckInputError::*;
    let mut v = vec![];
    for input_index in SIZES {
        v.extend(wraps(interps(), |error| Constructor { input_index, error }));
        v.extend(wraps(interps(), |error| Satisfaction { input_index, error }));
    }
    v
}
fn interp_all() -> Vec<B<v2::InterpreterCheckError>> {
    use v2::InterpreterCheckError::*;
    let mut v = wraps(conflict(), DetermineLockTime);
    v.extend(wraps(vals(interp_in()), InterpreterCheckInput));
    v
}
fn fin_in() -> Vec<B<v2::FinalizeInputError>> {
    use v2::FinalizeInputError::*;
    let mut v = wraps(vals(in2()), Final);
    v.extend(wraps(fin_map(), Input));
    v
}
fn fin_map() -> Vec<v2::input::FinalizeError> { vec![v2::input::FinalizeError::EmptyWitness, v2::input::FinalizeError::UnexpectedWitness] }
fn fin() -> Vec<B<v2::FinalizeError>> {
    use v2::FinalizeError::*;
    let mut v = wraps(vals(interp_all()), InterpreterCheck);
    for input_index in SIZES {
        v.extend(wraps(vals(fin_in()), |error| FinalizeInput { input_index, error }));
    }
    v
}
fn g_comb() -> Vec<B<v2::global::CombineError>> {
    use v2::global::CombineError::*;
    let mut v = vec![
        leaf(VersionMismatch { this: psbt_v2::V0, that: psbt_v2::V2 }),
        leaf(TxVersionMismatch { this: bitcoin::transaction::Version(-1), that: bitcoin::transaction::Version(i32::MAX) }),
    ];
    v.extend(wraps(inconsistent(), InconsistentKeySources));
    v
}
/// The library's own report of conflicting key sources.
fn inconsistent() -> Vec<InconsistentKeySourcesError> {
    let mk = |p: &str| {
        let mut q = v2::Creator::new().psbt();
        q.global.xpubs.insert(xpub(), (Default::default(), p.parse().unwrap()));
        q
    };
    match v2::combine(mk("m/1"), mk("m/2")) {
        Err(v2::CombineError::Global(v2::global::CombineError::InconsistentKeySources(e))) => vec![e],
        _ => vec![],
    }
}
fn i_comb() -> Vec<B<v2::input::CombineError>> {
    use v2::input::CombineError::*;
    let t = |n| bitcoin::Txid::from_byte_array([n; 32]);
    vec![leaf(PreviousTxidMismatch { this: t(0), that: t(255) }), leaf(SpentOutputIndexMismatch { this: 0, that: u32::MAX })]
}
fn o_comb() -> Vec<B<v2::output::CombineError>> {
    use v2::output::CombineError::*;
    let mut v = vec![leaf(AmountMismatch { this: Amount::ZERO, that: Amount::MAX }), leaf(AmountMismatch { this: Amount::MAX_MONEY, that: Amount::from_sat(1) })];
    for s in scripts() {
        v.push(leaf(ScriptPubkeyMismatch { this: s.clone(), that: ScriptBuf::new() }))
    }
    v
}
fn comb() -> Vec<B<v2::CombineError>> {
    use v2::CombineError::*;
    let mut v = vec![leaf(TransactionMismatch)];
    v.extend(wraps(vals(g_comb()), Global));
    v.extend(wraps(vals(i_comb()), Input));
    v.extend(wraps(vals(o_comb()), Output));
    v
}
fn extx() -> Vec<B<v2::ExtractTxError>> {
    let mut v = vec![leaf(v2::ExtractTxError::Unfinalized)];
    v.extend(wraps(conflict(), v2::ExtractTxError::DetermineLockTime));
    v
}
fn exfee() -> Vec<B<v2::ExtractTxFeeRateError>> {
    use v2::ExtractTxFeeRateError::*;
    let mut v = wraps(vals(fee()), Fee);
    v.extend(wraps(vals(extx()), ExtractTx));
    for n in [0, 1, u64::MAX / 1000, u64::MAX] {
        v.push(leaf(FeeTooHigh { fee: bitcoin::FeeRate::from_sat_per_kwu(n), max: bitcoin::FeeRate::ZERO }))
    }
    v
}

// ---- version 0

fn err0() -> Vec<B<v0::bitcoin::Error>> {
    use v0::bitcoin::Error::*;
    let mut v = vec![
        leaf(InvalidMagic),
        leaf(MissingUtxo),
        leaf(InvalidSeparator),
        leaf(PsbtUtxoOutOfbounds),
        leaf(InvalidProprietaryKey),
        leaf(UnsignedTxHasScriptSigs),
        leaf(UnsignedTxHasScriptWitnesses),
        leaf(MustHaveUnsignedTx),
        leaf(NoMorePairs),
        leaf(UnexpectedUnsignedTx { expected: Box::new(tx(0)), actual: Box::new(tx(2)) }),
        leaf(CombineInconsistentKeySources(Box::new(xpub()))),
        leaf(NegativeFee),
        leaf(FeeOverflow),
        leaf(InvalidXOnlyPublicKey),
        leaf(InvalidControlBlock),
        leaf(InvalidLeafVersion),
        leaf(Taproot("some reason")),
        leaf(XPubKey("some reason")),
        leaf(Version("some reason")),
        leaf(PartialDataConsumption),
    ];
    v.extend(keys0().into_iter().flat_map(|k| [leaf(InvalidKey(k.clone())), leaf(DuplicateKey(k))]));
    v.extend((0..=255).map(|key_type_value| leaf(ExcludedKey { key_type_value })));
    v.extend([0u32, 0x84, u32::MAX].map(|n| leaf(NonStandardSighashType(n))));
    v.extend(wraps(hash_slice(), InvalidHash));
    v.extend(wraps(consensus(), ConsensusEncoding));
    v.extend(wraps(from_slice(), InvalidPublicKey));
    v.extend(wraps(secp(), InvalidSecp256k1PublicKey));
    v.extend(wraps(ecdsa(), InvalidEcdsaSignature));
    v.extend(wraps(tapsig(), InvalidTaprootSignature));
    v.extend(wraps(builders(), TapTree));
    v.extend(wraps(vec![bitcoin::io::Error::new(bitcoin::io::ErrorKind::Other, "broken"), bitcoin::io::ErrorKind::UnexpectedEof.into()], Io));
    v
}
fn idx0() -> Vec<B<v0::bitcoin::IndexOutOfBoundsError>> {
    use v0::bitcoin::IndexOutOfBoundsError::*;
    SIZES.iter().flat_map(|n| [leaf(Inputs { index: *n, length: 0 }), leaf(TxInput { index: *n, length: 0 })]).collect()
}
fn sign0() -> Vec<B<v0::bitcoin::SignError>> {
    use v0::bitcoin::SignError::*;
    let mut v = vec![
        leaf(InvalidSighashType),
        leaf(MissingInputUtxo),
        leaf(MissingRedeemScript),
        leaf(MissingSpendUtxo),
        leaf(MissingWitnessScript),
        leaf(MismatchedAlgoKey),
        leaf(NotEcdsa),
        leaf(NotWpkh),
        leaf(UnknownOutputType),
        leaf(KeyNotFound),
        leaf(WrongSigningAlgorithm),
        leaf(Unsupported),
    ];
    v.extend(wraps(vals(idx0()), IndexOutOfBounds));
    v.extend(wraps(indexes(), SegwitV0Sighash));
    v.extend(wraps(p2wpkhs(), P2wpkhSighash));
    v.extend(wraps(taproots(), TaprootError));
    v
}
fn extx0() -> Vec<B<v0::bitcoin::ExtractTxError>> {
    use v0::bitcoin::ExtractTxError::*;
    vec![
        leaf(AbsurdFeeRate { fee_rate: bitcoin::FeeRate::MAX, tx: tx(0) }),
        leaf(AbsurdFeeRate { fee_rate: bitcoin::FeeRate::ZERO, tx: tx(1) }),
        leaf(MissingInputValue { tx: tx(0) }),
        leaf(SendingTooMuch { psbt: v0::bitcoin::Psbt::from_unsigned_tx(tx(1)).unwrap() }),
    ]
}
fn upd0() -> (Vec<B<v0::miniscript::UtxoUpdateError>>, Vec<B<v0::miniscript::OutputUpdateError>>) {
    use miniscript::descriptor::ConversionError as C;
    use v0::miniscript::{OutputUpdateError as O, UtxoUpdateError as U};
    let mut u = vec![leaf(U::MissingInputUtxo), leaf(U::UtxoCheck), leaf(U::MismatchedScriptPubkey)];
    let mut o = vec![leaf(O::MissingTxOut), leaf(O::MismatchedScriptPubkey)];
    for n in SIZES {
        u.push(leaf(U::IndexOutOfBounds(n, 0)));
        o.push(leaf(O::IndexOutOfBounds(n, 0)));
    }
    u.extend(wraps(vec![C::HardenedChild, C::MultiKey], U::DerivationError));
    o.extend(wraps(vec![C::HardenedChild, C::MultiKey], O::DerivationError));
    (u, o)
}
fn sig0() -> Vec<B<v0::miniscript::SighashError>> {
    use v0::miniscript::SighashError::*;
    let mut v = vec![leaf(MissingInputUtxo), leaf(MissingSpendUtxos), leaf(InvalidSighashType), leaf(MissingWitnessScript), leaf(MissingRedeemScript)];
    v.extend(SIZES.map(|n| leaf(IndexOutOfBounds(n, 0))));
    v.extend(wraps(taproots(), SighashTaproot));
    v.extend(wraps(p2wpkhs(), SighashP2wpkh));
    v.extend(wraps(indexes(), TransactionInputsIndex));
    v
}
fn fin0() -> Vec<B<v0::miniscript::Error>> {
    use v0::miniscript::Error::*;
    let mut v = vec![];
    for n in SIZES {
        v.push(leaf(WrongInputCount { in_tx: n, in_map: 0 }));
        v.push(leaf(InputIdxOutofBounds { psbt_inp: 0, index: n }));
        v.extend(wraps(vals(in0()), |e| InputError(e, n)));
    }
    v
}

fn built(ctx: &Ctx) {
    use v0::SignerChecksError as S;
    all(ctx, "serialize::Error", ser());
    all(ctx, "global::InsertPairError", g_pair());
    all(ctx, "input::InsertPairError", i_pair());
    all(ctx, "output::InsertPairError", o_pair());
    all(ctx, "global::DecodeError", g_dec());
    all(ctx, "input::DecodeError", i_dec());
    all(ctx, "output::DecodeError", o_dec());
    all(ctx, "v2::DeserializeError", deser());
    all(ctx, "v2::DecodeError", dec());
    let mut v = wraps(vals(deser()), v2::ParsePsbtError::PsbtEncoding);
    v.extend(wraps(base64(), v2::ParsePsbtError::Base64Encoding));
    all(ctx, "v2::ParsePsbtError", v);
    all(ctx, "FundingUtxoError", funding());
    all(ctx, "FeeError", fee());
    all(ctx, "v2::DetermineLockTimeError", conflict().into_iter().map(leaf).collect());
    all(ctx, "InconsistentKeySourcesError", inconsistent().into_iter().map(leaf).collect());
    all(ctx, "UnsupportedVersionError", versions().into_iter().map(leaf).collect());
    #[cfg(feature = "sp")]
    all(ctx, "dleq::InvalidLengthError", SIZES.iter().map(|n| leaf(v2::dleq::InvalidLengthError { got: *n, expected: 64 })).collect());
    all(ctx, "v2::IndexOutOfBoundsError", idx());
    all(ctx, "v2::SignError", sign());
    let mut v: Vec<B<v2::GetKeyError>> = vec![leaf(v2::GetKeyError::NotSupported)];
    v.extend(wraps(bip32s(), v2::GetKeyError::Bip32));
    all(ctx, "v2::GetKeyError", v);
    all(ctx, "v2::PartialSigsSighashTypeError", psst());
    all(ctx, "v2::NotUnsignedError", vec![leaf(v2::NotUnsignedError::Finalized), leaf(v2::NotUnsignedError::SigData)]);
    all(ctx, "v2::InputError", in2());
    all(ctx, "v2::InterpreterCheckInputError", interp_in());
    all(ctx, "v2::InterpreterCheckError", interp_all());
    all(ctx, "input::FinalizeError", fin_map().into_iter().map(leaf).collect());
    all(ctx, "v2::FinalizeInputError", fin_in());
    all(ctx, "v2::FinalizeError", fin());
    all(ctx, "global::CombineError", g_comb());
    all(ctx, "input::CombineError", i_comb());
    all(ctx, "output::CombineError", o_comb());
    all(ctx, "v2::CombineError", comb());
    all(ctx, "v2::ExtractTxError", extx());
    all(ctx, "v2::ExtractTxFeeRateError", exfee());
    let mut v = vec![leaf(v2::ExtractError::PsbtNotFinalized)];
    v.extend(wraps(conflict(), v2::ExtractError::DetermineLockTime));
    all(ctx, "v2::ExtractError", v);
    let mut v = vec![leaf(psbt_v2::InvalidSighashTypeError::Invalid(0)), leaf(psbt_v2::InvalidSighashTypeError::Invalid(u32::MAX))];
    for n in [4u32, 0x84, 255, u32::MAX] {
        v.extend(bitcoin::TapSighashType::from_consensus_u8(n as u8).err().map(|e| wrap(e, psbt_v2::InvalidSighashTypeError::Bitcoin)));
    }
    all(ctx, "InvalidSighashTypeError", v);
    let v = ["", "X", "SIGHASH_", "\u{0}{}"].iter().filter_map(|s| s.parse::<psbt_v2::PsbtSighashType>().err()).map(leaf).collect();
    all(ctx, "ParseSighashTypeError", v);
    // Preimage mismatches are told apart by the hash they name.
    for (i, a) in [0x0au8, 0x0b, 0x0c, 0x0d].iter().enumerate() {
        ctx.case(
            || format!("hash named in version 2 {:#x}", a),
            |ctx| {
                ctx.own();
                let m = v2_mismatch(*a);
                let want = ["ripemd", "sha256", "hash160", "hash256"];
                if !m.to_lowercase().contains(want[i]) {
                    return Err(format!("a wrong {} preimage is reported as \"{}\"", want[i], m));
                }
                Ok(())
            },
        );
    }

    all(ctx, "v0::bitcoin::Error", err0());
    let mut v = wraps(vals(err0()), v0::bitcoin::PsbtParseError::PsbtEncoding);
    v.extend(wraps(base64(), v0::bitcoin::PsbtParseError::Base64Encoding));
    all(ctx, "v0::bitcoin::PsbtParseError", v);
    all(ctx, "v0::bitcoin::IndexOutOfBoundsError", idx0());
    all(ctx, "v0::bitcoin::SignError", sign0());
    let mut v = vec![leaf(v0::bitcoin::GetKeyError::NotSupported)];
    v.extend(wraps(bip32s(), v0::bitcoin::GetKeyError::Bip32));
    all(ctx, "v0::bitcoin::GetKeyError", v);
    all(ctx, "v0::bitcoin::ExtractTxError", extx0());
    let (u, o) = upd0();
    all(ctx, "v0::miniscript::UtxoUpdateError", u);
    all(ctx, "v0::miniscript::OutputUpdateError", o);
    all(ctx, "v0::miniscript::SighashError", sig0());
    all(ctx, "v0::miniscript::InputError", in0());
    all(ctx, "v0::miniscript::Error", fin0());
    let v = vec![
        S::NonWitnessSig,
        S::NonWitnessUtxoTxidMismatch,
        S::WitnessAndNonWitnessUtxo,
        S::RedeemScriptMismatch,
        S::MissingTxOut,
        S::WitnessScriptMismatchWsh,
        S::WitnessScriptMismatchShWsh,
    ];
    all(ctx, "v0::SignerChecksError", v.into_iter().map(leaf).collect());
    ctx.bound("error types built from every variant", 51);
}

/// The whole chain of the report about a preimage that does not fit its hash.
fn v2_mismatch(ty: u8) -> String {
    let mut q = v2::Creator::new().psbt();
    q.inputs = vec![v2::Input::new(&bitcoin::OutPoint { txid: util::txid(1), vout: 0 })];
    q.global.input_count = 1;
    let mut m = wire::frame(&q.serialize()).expect("framed");
    let n = if matches!(ty, 0x0a | 0x0c) { 20 } else { 32 };
    m[1].push(wire::kv(ty, vec![9; n], vec![1, 2, 3]));
    match v2::Psbt::deserialize(&wire::enc_maps(m.iter())) {
        Ok(_) => "accepted".into(),
        Err(e) => chain(&e).join(" | "),
    }
}

pub fn errors(ctx: &Ctx) {
    built(ctx);
    let deep = g().tier == Tier::Thorough;
    for p in PROPS {
        // The large enumerations of the decoders report only errors that are also built above from their leaves.
        if !matches!(p.id, "E01" | "T01") && (deep || !matches!(p.id, "C02" | "C03" | "C04" | "C07")) {
            (p.check)(ctx);
        }
    }
}
