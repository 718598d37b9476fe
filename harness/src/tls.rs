//! The rustls provider: records, key schedule
use crate::{refs, sym};
use graviola::aead::{AesGcm, ChaCha20Poly1305};
use rustls::crypto::cipher::*;
use rustls::crypto::tls13::OkmBlock;
use rustls::{CipherSuite, ConnectionTrafficSecrets, ContentType, Error, ProtocolVersion, SupportedCipherSuite};

/// the suites by their code points: (hash is SHA-384, key length, GCM)
fn shape(s: CipherSuite) -> Option<(bool, usize, bool)> {
    Some(match u16::from(s) {
        0x1301 => (false, 16, true),
        0x1302 => (true, 32, true),
        0x1303 => (false, 32, false),
        0xc02b | 0xc02f => (false, 16, true),
        0xc02c | 0xc030 => (true, 32, true),
        0xcca9 | 0xcca8 => (false, 32, false),
        _ => return None,
    })
}
fn suite(i: usize) -> SupportedCipherSuite {
    rustls_graviola::suites::ALL_CIPHER_SUITES[i]
}
/// of 16 or 32 bytes (rustls makes the former only inside its key schedule)
fn aead_key(k: &[u8; 32], n: usize) -> AeadKey {
    let mut a = AeadKey::from(*k);
    assert!(size_of::<AeadKey>() == 40);
    let probe = AeadKey::from([0xff; 32]);
    let at = if unsafe { *(&probe as *const AeadKey as *const usize) } == 32 { 0 } else { 4 };
    unsafe { *(&mut a as *mut AeadKey as *mut usize).add(at) = n };
    a
}
/// AEAD encryption, by the API that C01 to C03 are about
fn seal(gcm: bool, key: &[u8], nonce: &[u8; 12], aad: &[u8], m: &[u8]) -> (Vec<u8>, [u8; 16]) {
    let (mut c, mut t) = (m.to_vec(), [0u8; 16]);
    if gcm {
        AesGcm::new(key).encrypt(nonce, aad, &mut c, &mut t);
    } else {
        ChaCha20Poly1305::new(key.try_into().unwrap()).encrypt(nonce, aad, &mut c, &mut t);
    }
    (c, t)
}
fn xor_seq(iv: &[u8; 12], seq: u64) -> [u8; 12] {
    let mut n = *iv;
    for (i, b) in seq.to_be_bytes().iter().enumerate() {
        n[4 + i] ^= b;
    }
    n
}
fn be16(n: usize) -> [u8; 2] {
    [(n >> 8) as u8, n as u8]
}
fn aad12(seq: u64, typ: u8, ver: u16, n: usize) -> Vec<u8> {
    [&seq.to_be_bytes()[..], &[typ], &ver.to_be_bytes(), &be16(n)].concat()
}
const TYPES: [(ContentType, u8); 4] =
    [(ContentType::ChangeCipherSpec, 20), (ContentType::Alert, 21), (ContentType::Handshake, 22), (ContentType::ApplicationData, 23)];

struct Rec {
    gcm: bool,
    n: usize,
    key: [u8; 32],
    iv: [u8; 12],
    seq: u64,
    typ: (ContentType, u8),
    m: Vec<u8>,
}
fn rec(long: bool) -> (SupportedCipherSuite, Rec) {
    let s = suite(sym::param(0));
    let (_, n, gcm) = shape(s.suite()).unwrap();
    let len = sym::param(1);
    let r = if long {
        Rec { gcm, n, key: [0x31; 32], iv: [0x92; 12], seq: 0x0102_0304_f506_0708, typ: TYPES[sym::param(2)], m: vec![0x6d; len] }
    } else {
        Rec { gcm, n, key: sym::arr(1), iv: sym::arr(2), seq: sym::u64(3), typ: TYPES[sym::param(2)], m: sym::vec(len, 4) }
    };
    (s, r)
}
/// the record a peer would send, before the tag is tampered with, its tag, and its nonce
fn record13(r: &Rec, pad: usize) -> (Vec<u8>, [u8; 16]) {
    let inner = [&r.m[..], &[r.typ.1], &vec![0; pad]].concat();
    let l = be16(inner.len() + 16);
    seal(r.gcm, &r.key[..r.n], &xor_seq(&r.iv, r.seq), &[23, 3, 3, l[0], l[1]], &inner)
}

/// TLS1.3 protection. params: suite, length, type, split point of the fragments
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_tls13_enc() {
    let (s, r) = rec(sym::param(1) > 300);
    let s = s.tls13().unwrap();
    sym::check(s.aead_alg.key_len() == r.n, 1);
    let mut e = s.aead_alg.encrypter(aead_key(&r.key, r.n), Iv::from(r.iv));
    let cut = sym::param(3).min(r.m.len());
    let frags = [&r.m[..cut], &r.m[cut..]];
    sym::check(e.encrypted_payload_len(r.m.len()) == r.m.len() + 17, 2);
    // two records with consecutive sequence numbers: no state but the key is kept
    let got0 = e.encrypt(OutboundPlainMessage { typ: r.typ.0, version: ProtocolVersion::TLSv1_3, payload: OutboundChunks::new(&frags) }, r.seq ^ 1);
    let got = e.encrypt(OutboundPlainMessage { typ: r.typ.0, version: ProtocolVersion::TLSv1_3, payload: OutboundChunks::Single(&r.m) }, r.seq);
    for (got, seq) in [(got0, r.seq ^ 1), (got, r.seq)] {
        let got = got.unwrap();
        let (c, t) = record13(&Rec { seq, key: r.key, iv: r.iv, m: r.m.clone(), ..r }, 0);
        sym::check(got.typ == ContentType::ApplicationData && got.version == ProtocolVersion::TLSv1_2, 3);
        let w = got.encode();
        let l = be16(c.len() + 16);
        let want = [&[23, 3, 3, l[0], l[1]][..], &c, &t].concat();
        sym::eq(&w, &want, 4);
        sym::out(&w);
    }
    sym::reach(1);
}

fn tamper(rec: &mut [u8], long: bool) -> bool {
    let n = rec.len();
    let d: [u8; 16] = if long { [0; 16] } else { sym::arr(7) };
    for i in 0..16 {
        rec[n - 16 + i] ^= d[i];
    }
    d == [0; 16]
}

/// TLS1.3 unprotection: any tag. params: suite, length, type, padding
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_tls13_dec() {
    let long = sym::param(1) > 300;
    let (s, r) = rec(long);
    let s = s.tls13().unwrap();
    let (mut w, t) = record13(&r, sym::param(3));
    w.extend(t);
    let right = tamper(&mut w, long);
    let mut d = s.aead_alg.decrypter(aead_key(&r.key, r.n), Iv::from(r.iv));
    match d.decrypt(InboundOpaqueMessage::new(ContentType::ApplicationData, ProtocolVersion::TLSv1_2, &mut w), r.seq) {
        Ok(p) => {
            sym::check(right, 1);
            // the largest plaintext
            sym::check(r.m.len() <= 16384, 2);
            sym::check(p.typ == r.typ.0, 3);
            sym::eq(p.payload, &r.m, 4);
            sym::reach(1);
        }
        Err(e) => {
            sym::check(!right || r.m.len() > 16384 || r.m.len() + 1 + sym::param(3) > 16385, 5);
            sym::check(e == if right { Error::PeerSentOversizedRecord } else { Error::DecryptError }, 6);
            sym::reach(2);
        }
    }
}

fn alg12(s: SupportedCipherSuite) -> &'static dyn Tls12AeadAlgorithm {
    match s {
        SupportedCipherSuite::Tls12(t) => t.aead_alg,
        _ => panic!(),
    }
}
const VERSIONS: [(ProtocolVersion, u16); 2] = [(ProtocolVersion::TLSv1_2, 0x0303), (ProtocolVersion::TLSv1_0, 0x0301)];

/// TLS1.2 protection (RFC 5288, RFC 7905). params: suite, length, type, split point, version
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_tls12_enc() {
    let (s, r) = rec(sym::param(1) > 300);
    let a = alg12(s);
    let ver = VERSIONS[sym::param(4)];
    let b = a.key_block_shape();
    sym::check(b.enc_key_len == r.n && b.fixed_iv_len == if r.gcm { 4 } else { 12 } && b.explicit_nonce_len == if r.gcm { 8 } else { 0 }, 1);
    let (salt, explicit) = r.iv.split_at(b.fixed_iv_len);
    let mut e = a.encrypter(aead_key(&r.key, r.n), salt, explicit);
    let over = if r.gcm { 24 } else { 16 };
    sym::check(e.encrypted_payload_len(r.m.len()) == r.m.len() + over, 2);
    let cut = sym::param(3).min(r.m.len());
    let frags = [&r.m[..cut], &r.m[cut..]];
    let got0 = e.encrypt(OutboundPlainMessage { typ: r.typ.0, version: ver.0, payload: OutboundChunks::new(&frags) }, r.seq ^ 1);
    let got = e.encrypt(OutboundPlainMessage { typ: r.typ.0, version: ver.0, payload: OutboundChunks::Single(&r.m) }, r.seq);
    for (got, seq) in [(got0, r.seq ^ 1), (got, r.seq)] {
        let w = got.unwrap().encode();
        let nonce = xor_seq(&r.iv, seq);
        let (c, t) = seal(r.gcm, &r.key[..r.n], &nonce, &aad12(seq, r.typ.1, ver.1, r.m.len()), &r.m);
        // the explicit part of a GCM nonce goes with the record; sequence numbers keep it from repeating
        let sent = if r.gcm { &nonce[4..] } else { &[] };
        let want = [&[r.typ.1][..], &ver.1.to_be_bytes(), &be16(r.m.len() + over), sent, &c, &t].concat();
        sym::eq(&w, &want, 4);
        sym::out(&w);
    }
    sym::reach(1);
}

/// TLS1.2 unprotection: any tag, any explicit nonce. params: suite, length, type, -, version
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_tls12_dec() {
    let long = sym::param(1) > 300;
    let (s, r) = rec(long);
    let a = alg12(s);
    let ver = VERSIONS[sym::param(4)];
    let nonce = if r.gcm { r.iv } else { xor_seq(&r.iv, r.seq) };
    let (c, t) = seal(r.gcm, &r.key[..r.n], &nonce, &aad12(r.seq, r.typ.1, ver.1, r.m.len()), &r.m);
    let mut w = [if r.gcm { &nonce[4..] } else { &[] }, &c, &t].concat();
    let right = tamper(&mut w, long);
    let mut d = a.decrypter(aead_key(&r.key, r.n), &r.iv[..if r.gcm { 4 } else { 12 }]);
    match d.decrypt(InboundOpaqueMessage::new(r.typ.0, ver.0, &mut w), r.seq) {
        Ok(p) => {
            sym::check(right, 1);
            sym::check(r.m.len() <= 16384, 2);
            sym::check(p.typ == r.typ.0 && p.version == ver.0, 3);
            sym::eq(p.payload, &r.m, 4);
            sym::reach(1);
        }
        Err(e) => {
            sym::check(!right || r.m.len() > 16384, 5);
            sym::check(e == if right { Error::PeerSentOversizedRecord } else { Error::DecryptError }, 6);
            sym::reach(2);
        }
    }
}

/// records too short to hold a tag. params: suite, length
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_tls_short() {
    let s = suite(sym::param(0));
    let (_, n, gcm) = shape(s.suite()).unwrap();
    let (key, iv, seq) = (sym::arr(1), sym::arr::<12>(2), sym::u64(3));
    let mut w = sym::vec(sym::param(1), 4);
    let mut d = match s {
        SupportedCipherSuite::Tls12(t) => t.aead_alg.decrypter(aead_key(&key, n), &iv[..if gcm { 4 } else { 12 }]),
        SupportedCipherSuite::Tls13(t) => t.aead_alg.decrypter(aead_key(&key, n), Iv::from(iv)),
    };
    let r = d.decrypt(InboundOpaqueMessage::new(ContentType::ApplicationData, ProtocolVersion::TLSv1_2, &mut w), seq);
    sym::check(matches!(r, Err(Error::DecryptError)), 1);
    sym::reach(1);
}

/// what is told about a suite: its hash, key sizes, exported secrets. params: suite
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_tls_suite() {
    let s = suite(sym::param(0));
    let (sha384, n, gcm) = shape(s.suite()).unwrap();
    let hash = if sha384 { 48 } else { 32 };
    let (key, iv) = (sym::arr::<32>(1), sym::arr::<12>(2));
    let common = match s {
        SupportedCipherSuite::Tls12(t) => &t.common,
        SupportedCipherSuite::Tls13(t) => &t.common,
    };
    sym::check(common.hash_provider.output_len() == hash, 1);
    // 2^24 records for AES-GCM (RFC 9001 appendix B, RFC 8446 5.5)
    sym::check(!gcm || common.confidentiality_limit <= 1 << 24, 2);
    let x = match s {
        SupportedCipherSuite::Tls12(t) => {
            let f = if gcm { 4 } else { 12 };
            t.aead_alg.extract_keys(aead_key(&key, n), &iv[..f], &iv[f..])
        }
        SupportedCipherSuite::Tls13(t) => t.aead_alg.extract_keys(aead_key(&key, n), Iv::from(iv)),
    };
    let (kind, k, i) = match x.ok().unwrap() {
        ConnectionTrafficSecrets::Aes128Gcm { key, iv } => (0, key, iv),
        ConnectionTrafficSecrets::Aes256Gcm { key, iv } => (1, key, iv),
        ConnectionTrafficSecrets::Chacha20Poly1305 { key, iv } => (2, key, iv),
        _ => panic!(),
    };
    sym::check(kind == if !gcm { 2 } else { (n == 32) as usize }, 3);
    sym::eq(k.as_ref(), &key[..n], 4);
    sym::eq(i.as_ref(), &iv, 5);
    // signature schemes of TLS1.2 suites go with their key type
    if let SupportedCipherSuite::Tls12(t) = s {
        let rsa = matches!(u16::from(t.common.suite), 0xc02f | 0xc030 | 0xcca8);
        for a in t.sign {
            let is_rsa = matches!(u16::from(*a), 0x0401 | 0x0501 | 0x0601 | 0x0804 | 0x0805 | 0x0806);
            sym::check(is_rsa == rsa, 6);
        }
        sym::check(!t.sign.is_empty(), 7);
    }
    sym::reach(1);
}

/// the hash, HMAC, HKDF and PRF of a suite. params: suite, length of input, length of key
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_tls_hash() {
    let s = suite(sym::param(0));
    let (sha384, _, _) = shape(s.suite()).unwrap();
    let (h, bl, hl): (fn(&[u8]) -> Vec<u8>, _, _) = if sha384 { (refs::sha384, 128, 48) } else { (refs::sha256, 64, 32) };
    let m = sym::vec(sym::param(1), 1);
    let k = sym::vec(sym::param(2), 2);
    let (a, b) = m.split_at(m.len() / 3);
    match s {
        SupportedCipherSuite::Tls13(t) => {
            // transcript hash: forks do not disturb it
            let p = t.common.hash_provider;
            let mut c = p.start();
            c.update(a);
            let f = c.fork();
            let mid = c.fork_finish();
            c.update(b);
            sym::eq(mid.as_ref(), &h(a), 1);
            sym::eq(c.finish().as_ref(), &h(&m), 2);
            sym::eq(f.finish().as_ref(), &h(a), 3);
            sym::eq(p.hash(&m).as_ref(), &h(&m), 4);
            sym::check(p.algorithm() == if sha384 { rustls::crypto::hash::HashAlgorithm::SHA384 } else { rustls::crypto::hash::HashAlgorithm::SHA256 }, 5);
            // HKDF (RFC 5869)
            let x = t.hkdf_provider.extract_from_secret(Some(&k), &m);
            let prk = refs::hmac(h, bl, &k, &m);
            let t1 = refs::hmac(h, bl, &prk, &[a, &[1]].concat());
            let t2 = refs::hmac(h, bl, &prk, &[&t1[..], a, &[2]].concat());
            let mut o = vec![0; hl + 5];
            x.expand_slice(&[&a[..a.len() / 2], &a[a.len() / 2..]], &mut o).ok().unwrap();
            sym::eq(&o, &[&t1[..], &t2[..5]].concat(), 6);
            sym::eq(x.expand_block(&[a]).as_ref(), &t1, 7);
            sym::check(x.hash_len() == hl, 8);
            let zero = t.hkdf_provider.extract_from_zero_ikm(None);
            let prk0 = refs::hmac(h, bl, &vec![0; hl], &vec![0; hl]);
            sym::eq(zero.expand_block(&[a]).as_ref(), &refs::hmac(h, bl, &prk0, &[a, &[1]].concat()), 9);
            // finished MACs
            let okm = sym::vec(hl, 3);
            sym::eq(t.hkdf_provider.hmac_sign(&OkmBlock::new(&okm), &m).as_ref(), &refs::hmac(h, bl, &okm, &m), 10);
        }
        SupportedCipherSuite::Tls12(t) => {
            // RFC 5246 section 5
            let seed = [b"key expansion", b].concat();
            let a1 = refs::hmac(h, bl, &k, &seed);
            let a2 = refs::hmac(h, bl, &k, &a1);
            let mut o = vec![0; hl + 8];
            t.prf_provider.for_secret(&mut o, &k, b"key expansion", b);
            let w = [refs::hmac(h, bl, &k, &[&a1[..], &seed].concat()), refs::hmac(h, bl, &k, &[&a2[..], &seed].concat())].concat();
            sym::eq(&o, &w[..hl + 8], 11);
            sym::eq(t.common.hash_provider.hash(&m).as_ref(), &h(&m), 12);
        }
    }
    sym::reach(1);
}
