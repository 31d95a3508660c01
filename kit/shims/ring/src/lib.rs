//! Model of `ring`: every operation is an uninterpreted function of its inputs (terms); which inputs
//! verify is an oracle that answers `valid` for exactly the expected tuple.
#![allow(static_mut_refs, dead_code, non_upper_case_globals)]
use vk::model::vbytes::{mem, set_term, term_of, Vec, GARBAGE};
pub struct Env {
    pub magic: u64,
    /// the tuple the oracle answers for, and the answer
    pub alg: u64, pub key: u64, pub msg: u64, pub sig: u64, pub valid: bool, pub asked: u32,
    pub rng_ok: bool, pub parse_ok: bool, pub sign_ok: bool, pub gen_ok: bool,
    pub modulus_len: usize, pub fills: u32,
}
pub static mut ENV: Env = Env { magic: 0x5EED_0000_8888_0001, alg: 0, key: 0, msg: 0, sig: 0, valid: false, asked: 0, rng_ok: true, parse_ok: true, sign_ok: true, gen_ok: true, modulus_len: 256, fills: 0 };
pub fn env() -> &'static mut Env { unsafe { &mut *(&raw mut ENV) } }
/// term constructor; input terms are small ids (or GARBAGE, which poisons)
pub fn mk(op: u64, a: u64, b: u64, c: u64, d: u64) -> u64 {
    if b == GARBAGE || c == GARBAGE || d == GARBAGE { return GARBAGE; }
    op << 56 | (a & 0xff) << 48 | (b & 0xffff) << 32 | (c & 0xffff) << 16 | (d & 0xffff)
}
pub const DIGEST: u64 = 1; pub const MAC: u64 = 2; pub const KDF: u64 = 3; pub const EC_PRIV: u64 = 4; pub const EC_PUB: u64 = 5; pub const EC_SIG: u64 = 6; pub const RSA_SIG: u64 = 7; pub const RANDOM: u64 = 8;
pub mod error { #[derive(Debug, Clone, Copy)] pub struct Unspecified; #[derive(Debug, Clone, Copy)] pub struct KeyRejected; }
use error::*;
pub mod digest {
    use super::*;
    pub struct Algorithm { pub id: u64, pub output_len: usize }
    impl Algorithm { pub fn output_len(&self) -> usize { self.output_len } }
    pub static SHA1_FOR_LEGACY_USE_ONLY: Algorithm = Algorithm { id: 1, output_len: 20 };
    pub static SHA256: Algorithm = Algorithm { id: 2, output_len: 32 };
    pub static SHA384: Algorithm = Algorithm { id: 3, output_len: 48 };
    pub static SHA512: Algorithm = Algorithm { id: 4, output_len: 64 };
    pub static SHA512_256: Algorithm = Algorithm { id: 5, output_len: 32 };
    pub struct Digest(Vec);
    impl AsRef<[u8]> for Digest { fn as_ref(&self) -> &[u8] { &self.0 } }
    pub fn digest(a: &'static Algorithm, data: &[u8]) -> Digest { Digest(Vec::vp(mk(DIGEST, a.id, term_of(data), 0, 0), a.output_len)) }
    pub struct Context { a: &'static Algorithm, t: u64, n: u32 }
    impl Context {
        pub fn new(a: &'static Algorithm) -> Self { Context { a, t: GARBAGE, n: 0 } }
        pub fn update(&mut self, d: &[u8]) { self.n += 1; self.t = if self.n == 1 { term_of(d) } else { GARBAGE }; }
        pub fn finish(self) -> Digest { Digest(Vec::vp(mk(DIGEST, self.a.id, self.t, 0, 0), self.a.output_len)) }
    }
}
fn ask(alg: u64, key: u64, msg: u64, sig: u64) -> Result<(), Unspecified> {
    let e = env();
    e.asked += 1;
    let hit = alg == e.alg && key == e.key && msg == e.msg && sig == e.sig;
    // anything else is answered the other way round
    if hit == e.valid { Ok(()) } else { Err(Unspecified) }
}
pub mod hmac {
    use super::*;
    #[derive(Clone, Copy, PartialEq, Eq)]
    pub struct Algorithm { pub id: u64, pub output_len: usize }
    pub static HMAC_SHA1_FOR_LEGACY_USE_ONLY: Algorithm = Algorithm { id: 1, output_len: 20 };
    pub static HMAC_SHA256: Algorithm = Algorithm { id: 2, output_len: 32 };
    pub static HMAC_SHA384: Algorithm = Algorithm { id: 3, output_len: 48 };
    pub static HMAC_SHA512: Algorithm = Algorithm { id: 4, output_len: 64 };
    pub struct Key { a: Algorithm, k: u64 }
    impl Key { pub fn new(a: Algorithm, k: &[u8]) -> Key { Key { a, k: term_of(k) } } pub fn algorithm(&self) -> Algorithm { self.a } }
    pub struct Tag(Vec);
    impl AsRef<[u8]> for Tag { fn as_ref(&self) -> &[u8] { &self.0 } }
    pub fn sign(k: &Key, d: &[u8]) -> Tag { Tag(Vec::vp(mk(MAC, k.a.id, k.k, term_of(d), 0), k.a.output_len)) }
    pub fn verify(k: &Key, d: &[u8], tag: &[u8]) -> Result<(), Unspecified> { ask(k.a.id, k.k, term_of(d), term_of(tag)) }
}
pub mod pbkdf2 {
    use super::*;
    #[derive(Clone, Copy)]
    pub struct Algorithm { pub id: u64 }
    pub static PBKDF2_HMAC_SHA1: Algorithm = Algorithm { id: 1 };
    pub static PBKDF2_HMAC_SHA256: Algorithm = Algorithm { id: 2 };
    pub static PBKDF2_HMAC_SHA384: Algorithm = Algorithm { id: 3 };
    pub static PBKDF2_HMAC_SHA512: Algorithm = Algorithm { id: 4 };
    pub static mut ITER: u64 = 0x5EED;
    pub fn derive(a: Algorithm, iterations: std::num::NonZeroU32, salt: &[u8], secret: &[u8], out: &mut [u8]) {
        unsafe { ITER = iterations.get() as u64; }
        let t = mk(KDF, a.id, term_of(salt), term_of(secret), 0);
        set_term(out, t);
    }
}
pub mod rand {
    use super::*;
    pub struct SystemRandom;
    impl SystemRandom { pub fn new() -> Self { SystemRandom } }
    pub trait SecureRandom { fn fill(&self, dest: &mut [u8]) -> Result<(), Unspecified>; }
    impl SecureRandom for SystemRandom {
        fn fill(&self, dest: &mut [u8]) -> Result<(), Unspecified> {
            let e = env();
            if !e.rng_ok { return Err(Unspecified); }
            e.fills += 1;
            set_term(dest, RANDOM << 56);
            Ok(())
        }
    }
}
pub mod signature {
    use super::*;
    use super::rand::SecureRandom;
    pub trait VerificationAlgorithm { fn id(&self) -> u64; }
    pub trait RsaEncoding { fn id(&self) -> u64; }
    pub struct EcdsaVerificationAlgorithm { pub id: u64 }
    impl VerificationAlgorithm for EcdsaVerificationAlgorithm { fn id(&self) -> u64 { self.id } }
    pub struct RsaParameters { pub id: u64 }
    impl VerificationAlgorithm for RsaParameters { fn id(&self) -> u64 { self.id } }
    pub struct EdDSAParameters { pub id: u64 }
    impl VerificationAlgorithm for EdDSAParameters { fn id(&self) -> u64 { self.id } }
    pub static ECDSA_P256_SHA256_FIXED: EcdsaVerificationAlgorithm = EcdsaVerificationAlgorithm { id: 0x11 };
    pub static ECDSA_P256_SHA256_ASN1: EcdsaVerificationAlgorithm = EcdsaVerificationAlgorithm { id: 0x12 };
    pub static ECDSA_P384_SHA384_FIXED: EcdsaVerificationAlgorithm = EcdsaVerificationAlgorithm { id: 0x13 };
    pub static ECDSA_P256_SHA384_ASN1: EcdsaVerificationAlgorithm = EcdsaVerificationAlgorithm { id: 0x14 };
    pub static RSA_PKCS1_2048_8192_SHA1_FOR_LEGACY_USE_ONLY: RsaParameters = RsaParameters { id: 0x21 };
    pub static RSA_PKCS1_2048_8192_SHA256: RsaParameters = RsaParameters { id: 0x22 };
    pub static RSA_PKCS1_2048_8192_SHA384: RsaParameters = RsaParameters { id: 0x23 };
    pub static RSA_PKCS1_2048_8192_SHA512: RsaParameters = RsaParameters { id: 0x24 };
    pub static RSA_PKCS1_1024_8192_SHA256_FOR_LEGACY_USE_ONLY: RsaParameters = RsaParameters { id: 0x25 };
    pub static RSA_PKCS1_1024_8192_SHA512_FOR_LEGACY_USE_ONLY: RsaParameters = RsaParameters { id: 0x26 };
    pub static RSA_PKCS1_1024_8192_SHA1_FOR_LEGACY_USE_ONLY: RsaParameters = RsaParameters { id: 0x27 };
    pub static RSA_PKCS1_3072_8192_SHA384: RsaParameters = RsaParameters { id: 0x28 };
    pub static RSA_PSS_2048_8192_SHA256: RsaParameters = RsaParameters { id: 0x29 };
    pub static RSA_PSS_2048_8192_SHA384: RsaParameters = RsaParameters { id: 0x2a };
    pub static RSA_PSS_2048_8192_SHA512: RsaParameters = RsaParameters { id: 0x2b };
    pub struct Pkcs1 { pub id: u64 }
    impl RsaEncoding for Pkcs1 { fn id(&self) -> u64 { self.id } }
    pub struct Pss { pub id: u64 }
    impl RsaEncoding for Pss { fn id(&self) -> u64 { self.id } }
    pub static RSA_PKCS1_SHA256: Pkcs1 = Pkcs1 { id: 2 };
    pub static RSA_PKCS1_SHA384: Pkcs1 = Pkcs1 { id: 3 };
    pub static RSA_PKCS1_SHA512: Pkcs1 = Pkcs1 { id: 4 };
    pub static RSA_PSS_SHA256: Pss = Pss { id: 0x12 };
    pub static RSA_PSS_SHA384: Pss = Pss { id: 0x13 };
    pub static RSA_PSS_SHA512: Pss = Pss { id: 0x14 };
    pub struct UnparsedPublicKey<B> { alg: &'static dyn VerificationAlgorithm, b: B }
    impl<B: AsRef<[u8]>> UnparsedPublicKey<B> {
        pub fn new(alg: &'static dyn VerificationAlgorithm, b: B) -> Self { UnparsedPublicKey { alg, b } }
        pub fn verify(&self, msg: &[u8], sig: &[u8]) -> Result<(), Unspecified> { ask(self.alg.id(), term_of(self.b.as_ref()), term_of(msg), term_of(sig)) }
    }
    pub struct EcdsaSigningAlgorithm { pub id: u64 }
    pub static ECDSA_P256_SHA256_FIXED_SIGNING: EcdsaSigningAlgorithm = EcdsaSigningAlgorithm { id: 0x11 };
    pub static ECDSA_P256_SHA256_ASN1_SIGNING: EcdsaSigningAlgorithm = EcdsaSigningAlgorithm { id: 0x12 };
    pub static ECDSA_P384_SHA384_FIXED_SIGNING: EcdsaSigningAlgorithm = EcdsaSigningAlgorithm { id: 0x13 };
    pub struct Document(Vec);
    impl AsRef<[u8]> for Document { fn as_ref(&self) -> &[u8] { &self.0 } }
    pub struct PublicKey(Vec);
    impl AsRef<[u8]> for PublicKey { fn as_ref(&self) -> &[u8] { &self.0 } }
    pub struct Signature(Vec);
    impl AsRef<[u8]> for Signature { fn as_ref(&self) -> &[u8] { &self.0 } }
    pub trait KeyPair { type PublicKey; fn public_key(&self) -> &Self::PublicKey; }
    pub struct EcdsaKeyPair { alg: u64, k: u64, p: PublicKey }
    impl EcdsaKeyPair {
        pub fn generate_pkcs8(a: &'static EcdsaSigningAlgorithm, _r: &dyn SecureRandom) -> Result<Document, Unspecified> {
            if !env().gen_ok { return Err(Unspecified); }
            Ok(Document(Vec::vp(mk(EC_PRIV, a.id, 0, 0, 0), 138)))
        }
        pub fn from_pkcs8(a: &'static EcdsaSigningAlgorithm, b: &[u8], _r: &dyn SecureRandom) -> Result<Self, KeyRejected> {
            if !env().parse_ok { return Err(KeyRejected); }
            let k = term_of(b);
            let k = if k == mk(EC_PRIV, a.id, 0, 0, 0) { 0x77 } else { k };
            Ok(EcdsaKeyPair { alg: a.id, k, p: PublicKey(Vec::vp(mk(EC_PUB, a.id, k, 0, 0), 65)) })
        }
        pub fn sign(&self, _r: &dyn SecureRandom, msg: &[u8]) -> Result<Signature, Unspecified> {
            if !env().sign_ok { return Err(Unspecified); }
            Ok(Signature(Vec::vp(mk(EC_SIG, self.alg, self.k, term_of(msg), 0), 64)))
        }
    }
    impl KeyPair for EcdsaKeyPair { type PublicKey = PublicKey; fn public_key(&self) -> &PublicKey { &self.p } }
    pub use super::rsa::KeyPair as RsaKeyPair;
}
pub mod rsa {
    use super::*;
    pub struct KeyPair { k: u64, kind: u64 }
    pub struct PublicKey;
    impl PublicKey { pub fn modulus_len(&self) -> usize { env().modulus_len } }
    impl KeyPair {
        pub fn from_der(b: &[u8]) -> Result<Self, KeyRejected> { if !env().parse_ok { return Err(KeyRejected); } Ok(KeyPair { k: term_of(b), kind: 1 }) }
        pub fn from_pkcs8(b: &[u8]) -> Result<Self, KeyRejected> { if !env().parse_ok { return Err(KeyRejected); } Ok(KeyPair { k: term_of(b), kind: 2 }) }
        pub fn public(&self) -> &PublicKey { &PublicKey }
        /// "signature must have length equal to the modulus length"
        pub fn sign(&self, p: &'static dyn signature::RsaEncoding, _r: &dyn rand::SecureRandom, msg: &[u8], sig: &mut [u8]) -> Result<(), Unspecified> {
            if sig.len() != env().modulus_len || !env().sign_ok { return Err(Unspecified); }
            set_term(sig, mk(RSA_SIG, p.id(), self.k, term_of(msg), self.kind));
            Ok(())
        }
    }
}
