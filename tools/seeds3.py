RNG = '''
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
static CALLS: AtomicU64 = AtomicU64::new(0);
static FAIL: AtomicU64 = AtomicU64::new(0);
#[unsafe(no_mangle)]
unsafe extern "Rust" fn __getrandom_v03_custom(dest: *mut u8, len: usize) -> Result<(), getrandom::Error> {
    let n = CALLS.fetch_add(1, Relaxed);
    if FAIL.load(Relaxed) != 0 { return Err(getrandom::Error::UNEXPECTED); }
    for i in 0..len { unsafe { *dest.add(i) = fill(n, i) } }
    Ok(())
}
'''
_R = dict(deps='getrandom = "0.3"', rustflags='--cfg getrandom_backend="custom"')
import re
_x = open("/verif/harness/src/vec_ed.rs").read()
_d = re.findall(r'EcKey { c: 1, d: (b"[^"]*")', _x)[2]
_v = re.findall(r'EcSig { key: 6, h: 0, msg: (b"[^"]*"), rnd: (b"[^"]+"), k: b"", sig: (b"[^"]*")', _x)[0]
SEEDS = [
dict(id="b13-nonce-repeats-block", property="C09", needs="P-384 with SHA-256, where a nonce takes more than one output block of the generator",
 breaks="P-384 nonces made with SHA-256 repeat their first 16 bytes at the end: a bias of 128 bits that reveals the key after a few signatures",
 edits=[("graviola/src/high/hmac_drbg.rs", "        for chunk in out.chunks_mut(hashlen) {\n            self.generate_block();\n", "        self.generate_block();\n        for chunk in out.chunks_mut(hashlen) {\n")],
 main=RNG + """
const RND: &[u8; 16] = %s;
fn fill(_n: u64, i: usize) -> u8 { RND[i] }
use graviola::hashing::Sha256;
use graviola::signing::ecdsa::{P384, SigningKey};
use graviola::key_agreement::p384::StaticPrivateKey;
fn main() {
    let k = SigningKey::<P384> { private_key: StaticPrivateKey::from_bytes(%s).unwrap() };
    let mut a = [0u8; 96];
    k.sign::<Sha256>(&[%s], &mut a).unwrap();
    assert_eq!(&a, %s);
    FAIL.store(1, Relaxed);
}
""" % (_v[1], _d, _v[0], _v[2]), **_R),
dict(id="b14-nonce-without-hash", property="C09", needs="a random source that repeats itself, and two messages",
 breaks="with fresh randomness the hash no longer enters the nonce, so a repeating random source reuses nonces for different messages and reveals the key",
 edits=[("graviola/src/high/ecdsa.rs", "            encoded_private_key,\n            &e_bytes[..C::Scalar::LEN_BYTES],\n            random,", "            encoded_private_key,\n            if random.is_empty() {\n                &e_bytes[..C::Scalar::LEN_BYTES]\n            } else {\n                random\n            },\n            &[],")],
 main=RNG + """
fn fill(_n: u64, i: usize) -> u8 { i as u8 }
use graviola::hashing::Sha256;
use graviola::signing::ecdsa::{P256, SigningKey};
fn main() {
    let k = SigningKey::<P256>::generate().unwrap();
    let (mut a, mut b) = ([0u8; 64], [0u8; 64]);
    k.sign::<Sha256>(&[b"first"], &mut a).unwrap();
    k.sign::<Sha256>(&[b"second"], &mut b).unwrap();
    assert_ne!(a[..32], b[..32], "nonce reuse");
    FAIL.store(1, Relaxed);
}
""", **_R),
dict(id="b15-x25519-long-public-key", property="C12", needs="a public key longer than 32 bytes",
 breaks="an X25519 public key with trailing bytes is accepted",
 edits=[("graviola/src/mid/x25519.rs", "        util::little_endian_slice_to_u64x4(b)\n            .map(Self)\n", "        b.get(..Self::BYTES)\n            .and_then(util::little_endian_slice_to_u64x4)\n            .map(Self)\n")],
 main="""
use graviola::key_agreement::x25519::PublicKey;
fn main() {
    let b = [9u8; 70];
    for n in 0..=70 {
        assert_eq!(PublicKey::try_from_slice(&b[..n]).is_ok(), n == 32);
    }
}
"""),
dict(id="b16-ed25519-s-equals-order", property="C13", needs="a signature with S equal to the group order, under a small-order key",
 breaks="S equal to the group order is accepted, so a signature has a second form",
 edits=[("graviola/src/mid/ed25519.rs", "(low::bignum_cmp_lt(&s, &ORDER) != 0).then_some(Self(s))", "(low::bignum_cmp_lt(&ORDER, &s) == 0).then_some(Self(s))")],
 main="""
use graviola::signing::eddsa::Ed25519VerifyingKey;
fn main() {
    let mut id = [0u8; 32];
    id[0] = 1;
    let k = Ed25519VerifyingKey::from_bytes(&id).unwrap();
    let mut sig = [0u8; 64];
    sig[0] = 1;
    sig[32..].copy_from_slice(b"\\xed\\xd3\\xf5\\x5c\\x1a\\x63\\x12\\x58\\xd6\\x9c\\xf7\\xa2\\xde\\xf9\\xde\\x14\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\x10");
    assert!(k.verify(&sig, b"m").is_err());
}
"""),
]
