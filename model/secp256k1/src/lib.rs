//! Model of `secp256k1`: an ideal signature scheme.  A signature verifies for
//! (message digest, public key) exactly when it was produced by signing that
//! digest with the matching secret key (existential unforgeability taken as
//! perfect, signing deterministic).  Key and signature encodings are ideal
//! collision-free functions as well.
use std::cell::UnsafeCell;
use std::fmt;
use std::marker::PhantomData;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Error {
    IncorrectSignature,
    InvalidMessage,
    InvalidPublicKey,
    InvalidSignature,
    InvalidSecretKey,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("secp256k1 error")
    }
}
impl std::error::Error for Error {}

struct Signed {
    pk: [u8; 33],
    msg: [u8; 32],
    sig: [u8; 64],
}
struct Store(UnsafeCell<Vec<Signed>>);
unsafe impl Sync for Store {}
static STORE: Store = Store(UnsafeCell::new(Vec::new()));

/// group order
const N: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe,
    0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
];
/// half the group order: the `s` of a valid signature is not above it
const HALF: [u8; 32] = [
    0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
    0x5d, 0x57, 0x6e, 0x73, 0x57, 0xa4, 0x50, 0x1d, 0xdf, 0xe9, 0x2f, 0x46, 0x68, 0x1b, 0x20, 0xa0,
];
/// big-endian a - b, and whether it is negative
fn minus(a: &[u8], b: &[u8; 32]) -> ([u8; 32], bool) {
    let mut r = [0u8; 32];
    let mut c = false;
    for i in (0..4).rev() {
        let w = |x: &[u8]| {
            let mut t = [0u8; 8];
            t.copy_from_slice(&x[8 * i..8 * i + 8]);
            u64::from_be_bytes(t)
        };
        let (x, o1) = w(a).overflowing_sub(w(b));
        let (x, o2) = x.overflowing_sub(c as u64);
        c = o1 | o2;
        r[8 * i..8 * i + 8].copy_from_slice(&x.to_be_bytes());
    }
    (r, c)
}

fn public_of(sk: &[u8; 32]) -> [u8; 33] {
    let mut m = b"secp256k1 public key".to_vec();
    m.extend_from_slice(sk);
    let h = symrt::sha256(&m);
    let mut pk = [2u8; 33];
    pk[1..].copy_from_slice(&h);
    pk
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct SecretKey([u8; 32]);
impl SecretKey {
    pub fn from_slice(d: &[u8]) -> Result<SecretKey, Error> {
        if d.len() != 32 {
            return Err(Error::InvalidSecretKey);
        }
        let mut k = [0u8; 32];
        k.copy_from_slice(d);
        // 0 and values >= the group order are rejected
        if k == [0u8; 32] || !minus(&k, &N).1 {
            return Err(Error::InvalidSecretKey);
        }
        Ok(SecretKey(k))
    }
    pub fn secret_bytes(&self) -> [u8; 32] {
        self.0
    }
    pub fn x_only_public_key<C>(&self, s: &Secp256k1<C>) -> (XOnlyPublicKey, Parity) {
        self.public_key(s).x_only_public_key()
    }
    pub fn public_key<C>(&self, _: &Secp256k1<C>) -> PublicKey {
        PublicKey(public_of(&self.0))
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Parity {
    Even,
    Odd,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct XOnlyPublicKey([u8; 32]);
impl XOnlyPublicKey {
    pub fn serialize(&self) -> [u8; 32] {
        self.0
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct PublicKey([u8; 33]);
impl PublicKey {
    pub fn from_slice(d: &[u8]) -> Result<PublicKey, Error> {
        if d.len() != 33 || (d[0] != 2 && d[0] != 3) {
            return Err(Error::InvalidPublicKey);
        }
        let mut k = [0u8; 33];
        k.copy_from_slice(d);
        Ok(PublicKey(k))
    }
    pub fn from_secret_key<C>(_: &Secp256k1<C>, sk: &SecretKey) -> PublicKey {
        PublicKey(public_of(&sk.0))
    }
    pub fn serialize(&self) -> [u8; 33] {
        self.0
    }
    pub fn x_only_public_key(&self) -> (XOnlyPublicKey, Parity) {
        let mut x = [0u8; 32];
        x.copy_from_slice(&self.0[1..]);
        (XOnlyPublicKey(x), if self.0[0] == 2 { Parity::Even } else { Parity::Odd })
    }
    pub fn is_valid(&self) -> bool {
        true
    }
}
impl std::str::FromStr for PublicKey {
    type Err = Error;
    fn from_str(s: &str) -> Result<Self, Error> {
        let mut k = [0u8; 33];
        let b = s.as_bytes();
        if b.len() != 66 {
            return Err(Error::InvalidPublicKey);
        }
        for i in 0..33 {
            let d = |c: u8| (c as char).to_digit(16).ok_or(Error::InvalidPublicKey);
            k[i] = (d(b[2 * i])? * 16 + d(b[2 * i + 1])?) as u8;
        }
        PublicKey::from_slice(&k)
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct Message([u8; 32]);
impl AsRef<[u8]> for Message {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl Message {
    pub fn from_digest(d: [u8; 32]) -> Message {
        Message(d)
    }
    pub fn from_digest_slice(d: &[u8]) -> Result<Message, Error> {
        if d.len() != 32 {
            return Err(Error::InvalidMessage);
        }
        let mut k = [0u8; 32];
        k.copy_from_slice(d);
        Ok(Message(k))
    }
}
#[derive(Clone, Copy, Debug)]
pub enum All {}
#[derive(Clone, Copy, Debug)]
pub enum VerifyOnly {}
#[derive(Clone, Copy, Debug)]
pub enum SignOnly {}
pub trait Signing {}
pub trait Verification {}
impl Signing for All {}
impl Signing for SignOnly {}
impl Verification for All {}
impl Verification for VerifyOnly {}
#[derive(Clone, Debug)]
pub struct Secp256k1<C>(PhantomData<C>);
impl Secp256k1<All> {
    pub fn new() -> Self {
        Secp256k1(PhantomData)
    }
}
impl Secp256k1<VerifyOnly> {
    pub fn verification_only() -> Self {
        Secp256k1(PhantomData)
    }
}
impl Secp256k1<SignOnly> {
    pub fn signing_only() -> Self {
        Secp256k1(PhantomData)
    }
}
impl<C: Signing> Secp256k1<C> {
    pub fn gen_new() -> Self {
        Secp256k1(PhantomData)
    }
    pub fn sign_ecdsa_low_r(&self, msg: &Message, sk: &SecretKey) -> ecdsa::Signature {
        self.sign_ecdsa(msg, sk)
    }
    pub fn sign_ecdsa(&self, msg: &Message, sk: &SecretKey) -> ecdsa::Signature {
        let mut m = b"secp256k1 signature ".to_vec();
        m.extend_from_slice(&sk.0);
        m.extend_from_slice(&msg.0);
        let r = symrt::sha256(&m);
        m.push(1);
        let s = symrt::sha256(&m);
        let mut s = s;
        s[0] &= 0x7f; // signing picks the lower of s and n - s
        symrt::assume(minus(&r, &N).1 & !minus(&HALF, &s).1);
        let mut sig = [0u8; 64];
        sig[..32].copy_from_slice(&r);
        sig[32..].copy_from_slice(&s);
        unsafe { &mut *STORE.0.get() }.push(Signed { pk: public_of(&sk.0), msg: msg.0, sig });
        ecdsa::Signature(sig)
    }
}
pub use ecdsa::Signature as EcdsaSignature;
pub mod constants {
    pub const SECRET_KEY_SIZE: usize = 32;
    pub const PUBLIC_KEY_SIZE: usize = 33;
    pub const COMPACT_SIGNATURE_SIZE: usize = 64;
    pub const MESSAGE_SIZE: usize = 32;
    pub const CURVE_ORDER: [u8; 32] = super::N;
}
pub use constants::*;
impl SecretKey {
    pub const fn as_ref(&self) -> &[u8; 32] {
        &self.0
    }
    pub fn sign_ecdsa(&self, msg: Message) -> ecdsa::Signature {
        Secp256k1::<All>::new().sign_ecdsa(&msg, self)
    }
}
impl PublicKey {
    pub fn verify<C: Verification>(&self, s: &Secp256k1<C>, m: &Message, sig: &ecdsa::Signature) -> Result<(), Error> {
        s.verify_ecdsa(m, sig, self)
    }
}
impl ecdsa::Signature {
    pub fn verify<C: Verification>(&self, s: &Secp256k1<C>, m: &Message, pk: &PublicKey) -> Result<(), Error> {
        s.verify_ecdsa(m, self, pk)
    }
}
impl<C: Verification> Secp256k1<C> {
    pub fn verify_ecdsa(
        &self,
        msg: &Message,
        sig: &ecdsa::Signature,
        pk: &PublicKey,
    ) -> Result<(), Error> {
        let mut ok = false;
        for s in unsafe { &*STORE.0.get() } {
            ok |= (s.pk == pk.0) & (s.msg == msg.0) & (s.sig == sig.0);
        }
        if ok {
            Ok(())
        } else {
            Err(Error::IncorrectSignature)
        }
    }
}
pub mod ecdsa {
    use super::Error;
    #[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
    pub struct Signature(pub(crate) [u8; 64]);
    impl Signature {
        pub fn from_compact(d: &[u8]) -> Result<Signature, Error> {
            if d.len() != 64 {
                return Err(Error::InvalidSignature);
            }
            let mut k = [0u8; 64];
            k.copy_from_slice(d);
            if !super::minus(&k[..32], &super::N).1 || !super::minus(&k[32..], &super::N).1 {
                return Err(Error::InvalidSignature);
            }
            Ok(Signature(k))
        }
        /// the equivalent signature with the lower of s and n - s
        pub fn normalize_s(&mut self) {
            if super::minus(&super::HALF, self.0[32..].try_into().unwrap()).1 {
                let s = super::minus(&super::N, self.0[32..].try_into().unwrap()).0;
                self.0[32..].copy_from_slice(&s);
            }
        }
        pub fn serialize_compact(&self) -> [u8; 64] {
            self.0
        }
    }
}
