//! ECDSA signing
use crate::ec::{der_sig, is_zero, lt, pick};
use crate::vec_ec::{N_P256, N_P384};
use crate::vec_ed::*;
use crate::{refs, rng, sym};
use graviola::hashing::{Hash, HashContext, HashOutput, Sha256, Sha384, Sha512};
use graviola::key_agreement::{p256, p384};
use graviola::signing::ecdsa::*;
use graviola::Error;

#[cfg(graviola_verif)]
use graviola::verif as hk;
#[cfg(not(graviola_verif))]
mod hk {
    use std::sync::OnceLock;
    pub static NONCE_SEED: OnceLock<fn(&[u8], &[u8], &[u8])> = OnceLock::new();
    pub static NONCE_OUTPUT: OnceLock<fn(&mut [u8]) -> bool> = OnceLock::new();
    pub static NONCE_RESULT: OnceLock<fn(&[u8])> = OnceLock::new();
}
/// the tree no longer takes the hooks: say nothing
fn hookless() -> bool {
    if cfg!(not(graviola_verif)) {
        sym::reach(99);
    }
    cfg!(not(graviola_verif))
}

struct Seen {
    c: usize,
    h: usize,
    key: Vec<u8>,
    hash: Vec<u8>,
    seed: Vec<u8>,
    fills: usize,
    bad: usize,
    ret: Vec<u8>,
}
struct Cell(core::cell::UnsafeCell<Seen>);
unsafe impl Sync for Cell {}
static SEEN: Cell = Cell(core::cell::UnsafeCell::new(Seen { c: 0, h: 0, key: Vec::new(), hash: Vec::new(), seed: Vec::new(), fills: 0, bad: 0, ret: Vec::new() }));
fn seen() -> &'static mut Seen {
    unsafe { &mut *SEEN.0.get() }
}
fn order(c: usize) -> &'static [u8] {
    if c == 0 { N_P256 } else { N_P384 }
}

/// An arbitrary function of its input, of the shape of SHA-256, SHA-384 or SHA-512:
/// what holds with it holds for every hash function of that shape
struct AnyHash<const W: usize>;
#[derive(Clone)]
struct AnyCtx<const W: usize>(Vec<u8>);
struct LogCell(core::cell::UnsafeCell<Vec<(Vec<u8>, Vec<u8>)>>);
unsafe impl Sync for LogCell {}
static LOG: LogCell = LogCell(core::cell::UnsafeCell::new(Vec::new()));
fn any_hash(w: usize, m: &[u8]) -> Vec<u8> {
    let log = unsafe { &mut *LOG.0.get() };
    for (i, o) in log.iter() {
        if sym::same(i, m) {
            return o.clone();
        }
    }
    let o = sym::vec([32, 48, 64][w], 800);
    log.push((m.to_vec(), o.clone()));
    o
}
#[cfg(graviola_verif)]
impl<const W: usize> Hash for AnyHash<W> {
    type Context = AnyCtx<W>;
    fn new() -> AnyCtx<W> {
        AnyCtx(vec![])
    }
    fn hash(m: &[u8]) -> HashOutput {
        let mut c = Self::new();
        c.update(m);
        c.finish()
    }
    fn zeroed_block() -> hk::HashBlock {
        match W {
            0 => Sha256::zeroed_block(),
            1 => Sha384::zeroed_block(),
            _ => Sha512::zeroed_block(),
        }
    }
    fn zeroed_output() -> HashOutput {
        match W {
            0 => Sha256::zeroed_output(),
            1 => Sha384::zeroed_output(),
            _ => Sha512::zeroed_output(),
        }
    }
}
#[cfg(graviola_verif)]
impl<const W: usize> HashContext for AnyCtx<W> {
    fn update(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
    fn finish(self) -> HashOutput {
        let mut o = AnyHash::<W>::zeroed_output();
        o.as_mut().copy_from_slice(&any_hash(W, &self.0));
        o
    }
}
fn mac(h: usize, k: &[u8], m: &[u8]) -> Vec<u8> {
    match h {
        0 => refs::hmac(|m| any_hash(0, m), 64, k, m),
        1 => refs::hmac(|m| any_hash(1, m), 128, k, m),
        _ => refs::hmac(|m| any_hash(2, m), 128, k, m),
    }
}
/// a - b, big endian
fn sub(a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut r = vec![0; a.len()];
    let mut borrow = 0i32;
    for i in (0..a.len()).rev() {
        let d = a[i] as i32 - b[i] as i32 - borrow;
        borrow = (d < 0) as i32;
        r[i] = d as u8;
    }
    r
}
/// HMAC_DRBG as RFC 6979 uses it: the first `n` bytes
fn drbg(h: usize, seed: &[u8], n: usize) -> Vec<u8> {
    let hl = [32, 48, 64][h];
    let (mut k, mut v) = (vec![0u8; hl], vec![1u8; hl]);
    for s in 0..2u8 {
        let mut m = v.clone();
        m.push(s);
        m.extend_from_slice(seed);
        k = mac(h, &k, &m);
        v = mac(h, &k, &v);
    }
    let mut t = vec![];
    while t.len() < n {
        v = mac(h, &k, &v);
        t.extend_from_slice(&v);
    }
    t.truncate(n);
    t
}

fn on_seed(key: &[u8], e: &[u8], random: &[u8]) {
    let s = seen();
    let n = order(s.c);
    sym::eq(key, &s.key, 1);
    // e is the leftmost bits of the hash, reduced
    let mut want = vec![0u8; n.len()];
    let hl = s.hash.len().min(n.len());
    want[n.len() - hl..].copy_from_slice(&s.hash[..hl]);
    sym::check(e.len() == n.len(), 2);
    if hl < n.len() {
        sym::eq(e, &want, 3);
    } else {
        sym::check(lt(e, n), 4);
        sym::check(sym::memeq(e, &want) | (sym::memeq(e, &sub(&want, n)) & !lt(&want, n)), 5);
    }
    // exactly the fresh random bytes, at least 16 of them
    let mut fresh = vec![];
    for l in &rng::state().log {
        fresh.extend_from_slice(l);
    }
    sym::check(fresh.len() >= 16, 6);
    sym::eq(random, &fresh, 7);
    s.seed = [key, e, random].concat();
}
fn on_result(out: &[u8]) {
    let s = seen();
    sym::check(out.len() == order(s.c).len(), 8);
    sym::check(!s.seed.is_empty(), 9);
    sym::eq(out, &drbg(s.h, &s.seed, out.len()), 10);
    sym::out(out);
    sym::reach(1);
    sym::finish();
}

enum K {
    A(SigningKey<P256>),
    B(SigningKey<P384>),
}
fn key(c: usize, d: &[u8]) -> Option<K> {
    Some(if c == 0 {
        K::A(SigningKey { private_key: p256::StaticPrivateKey::from_bytes(d).ok()? })
    } else {
        K::B(SigningKey { private_key: p384::StaticPrivateKey::from_bytes(d).ok()? })
    })
}
impl K {
    fn sign_t<'a, H: Hash>(&self, m: &[&[u8]], o: &'a mut [u8], der: bool) -> Result<&'a [u8], Error> {
        match (self, der) {
            (K::A(k), false) => k.sign::<H>(m, o),
            (K::A(k), true) => k.sign_asn1::<H>(m, o),
            (K::B(k), false) => k.sign::<H>(m, o),
            (K::B(k), true) => k.sign_asn1::<H>(m, o),
        }
    }
    fn sign<'a>(&self, h: usize, m: &[&[u8]], o: &'a mut [u8], der: bool) -> Result<&'a [u8], Error> {
        match h {
            0 => self.sign_t::<Sha256>(m, o, der),
            1 => self.sign_t::<Sha384>(m, o, der),
            _ => self.sign_t::<Sha512>(m, o, der),
        }
    }
}

/// the nonce is a function of key, hash and fresh randomness, as in RFC 6979 3.6.
/// params: curve, hash, message length, first part length, DER
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_ecdsa_nonce() {
    if hookless() {
        return;
    }
    let (c, h, len, cut, der) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3), sym::param(4) != 0);
    let d = sym::vec(order(c).len(), 1);
    let msg = sym::vec(len, 2);
    let k = key(c, &d);
    sym::assume(k.is_some());
    let k = k.unwrap();
    rng::state().keep = true;
    let s = seen();
    s.c = c;
    s.h = h;
    s.key = d;
    s.hash = any_hash(h, &msg);
    let _ = hk::NONCE_SEED.set(on_seed);
    let _ = hk::NONCE_RESULT.set(on_result);
    let mut o = vec![0u8; 120];
    let m = [&msg[..cut], &msg[cut..]];
    #[cfg(graviola_verif)]
    let _ = match h {
        0 => k.sign_t::<AnyHash<0>>(&m, &mut o, der),
        1 => k.sign_t::<AnyHash<1>>(&m, &mut o, der),
        _ => k.sign_t::<AnyHash<2>>(&m, &mut o, der),
    };
    sym::check(false, 20);
}

fn retry(out: &mut [u8]) -> bool {
    let s = seen();
    if s.fills < s.bad {
        // first and last unusable outputs: anything unusable; others zero
        if s.fills == 0 || s.fills + 1 == s.bad {
            sym::bytes(out, 5);
            sym::assume(is_zero(out) | !lt(out, order(s.c)));
        } else {
            out.fill(0);
        }
    } else {
        out.copy_from_slice(&s.ret);
    }
    s.fills += 1;
    true
}

/// nonces outside 1..n are never used: the generator is asked again, at most 64 times.
/// params: curve, number of unusable outputs, DER
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_ecdsa_retry() {
    if hookless() {
        return;
    }
    let (c, bad, der) = (sym::param(0), sym::param(1), sym::param(2) != 0);
    let v = EC_SIGN.iter().rev().find(|v| v.rnd.is_empty() && EC_KEYS[v.key].c == c).unwrap();
    let s = seen();
    s.c = c;
    s.bad = bad;
    s.ret = v.k.to_vec();
    rng::state().fixed = Some(vec![7; 16]);
    let _ = hk::NONCE_OUTPUT.set(retry);
    let k = key(c, EC_KEYS[v.key].d).unwrap();
    let mut o = vec![0x5au8; 120];
    let got = k.sign(v.h, &[v.msg], &mut o, der).map(|s| s.to_vec());
    let l = v.sig.len() / 2;
    let want = if der { der_sig(&v.sig[..l], &v.sig[l..]) } else { v.sig.to_vec() };
    match got {
        Ok(g) => {
            // a correct signature, however many attempts it took
            sym::eq(&g, &want, 1);
            sym::check(s.fills == bad + 1, 2);
            sym::reach(1);
        }
        Err(e) => {
            // giving up is only permissible after many attempts
            sym::check(bad >= 64 && e == Error::RngFailed, 3);
            sym::check(o.iter().all(|b| *b == 0x5a), 4);
            sym::reach(2);
        }
    }
}

fn given(out: &mut [u8]) -> bool {
    let s = seen();
    s.fills += 1;
    if s.ret.is_empty() {
        return false;
    }
    out.copy_from_slice(&s.ret);
    true
}

/// complete signatures against independent arithmetic, and the output buffers. params: lo, hi
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_ecdsa_sign_vec() {
    if hookless() {
        return;
    }
    let v = &EC_SIGN[pick(sym::param(0), sym::param(1).min(EC_SIGN.len()), 1)];
    let ek = &EC_KEYS[v.key];
    let k = key(ek.c, ek.d).unwrap();
    seen().ret = v.k.to_vec();
    let _ = hk::NONCE_OUTPUT.set(given);
    rng::state().fixed = Some(if v.rnd.is_empty() { vec![7; 16] } else { v.rnd.to_vec() });
    let which = pick(0, 8, 2);
    let cut = which % 3 * 10;
    let msg = [&v.msg[..cut], b"", &v.msg[cut..]];
    let l = v.sig.len() / 2;
    let der = der_sig(&v.sig[..l], &v.sig[l..]);
    for (d, want) in [(false, v.sig), (true, &der[..])] {
        let mut o = vec![0x5au8; 140];
        let got = k.sign(v.h, &msg, &mut o, d).map(|s| s.to_vec());
        sym::check(got.is_ok(), 1);
        sym::eq(&got.unwrap(), want, 2);
        sym::eq(&o[..want.len()], want, 3);
        sym::check(o[want.len().max(2 * l)..].iter().all(|b| *b == 0x5a), 4);
    }
    // buffers: exactly long enough, and not
    let d = which & 1 == 1;
    let want = if d { &der[..] } else { v.sig };
    let short = which / 2;
    let n = [want.len(), want.len() - 1, l, 0][short];
    let mut o = vec![0x5au8; n];
    match k.sign(v.h, &msg, &mut o, d) {
        Ok(s) => {
            sym::check(short == 0, 5);
            sym::eq(s, want, 6);
            sym::reach(1);
        }
        Err(e) => {
            sym::check(short != 0 && e == Error::WrongLength, 7);
            sym::reach(2);
        }
    }
}

/// no randomness, no signature. params: curve, hash
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_ecdsa_norng() {
    let (c, h) = (sym::param(0), sym::param(1));
    let k = key(c, EC_KEYS[4 * c + 2].d).unwrap();
    rng::fail(!0);
    seen().ret = vec![];
    let _ = hk::NONCE_OUTPUT.set(given);
    let m = sym::vec(5, 1);
    let d = pick(0, 2, 2) == 1;
    let mut o = vec![0x5au8; 140];
    let r = k.sign(h, &[&m], &mut o, d);
    sym::check(r.err() == Some(Error::RngFailed), 1);
    sym::check(o.iter().all(|b| *b == 0x5a), 2);
    sym::check(seen().fills == 0, 3);
    sym::reach(1);
}
