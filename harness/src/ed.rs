//! X25519 and Ed25519
use crate::ec::{is_zero, lt, pick};
use crate::vec_ed::*;
use crate::{rng, sym};
use graviola::key_agreement::x25519::*;
use graviola::signing::eddsa::*;
use graviola::Error;

/// params: lo, hi (rows of the table), 1: the ephemeral key type
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_x25519() {
    let (lo, hi, eph) = (sym::param(0), sym::param(1).min(X25519.len()), sym::param(2) == 1);
    let v = &X25519[pick(lo, hi, 1)];
    // bits that must not matter
    let x = sym::arr::<3>(2);
    let (mut k, mut u) = (*v.k, *v.u);
    k[0] ^= x[0] & 7;
    k[31] ^= x[1] & 0xc0;
    u[31] ^= x[2] & 0x80;
    let peer = PublicKey::from_array(&u);
    let got = if eph {
        rng::state().fixed = Some(vec![0; 32]);
        rng::state().fixed.as_mut().unwrap().copy_from_slice(&k);
        let key = PrivateKey::new_random().unwrap();
        key.diffie_hellman(&peer)
    } else {
        let key = StaticPrivateKey::try_from_slice(&k).unwrap();
        let a = key.diffie_hellman(&peer).map(|s| s.as_bytes());
        let b = StaticPrivateKey::from_array(&k).diffie_hellman(&PublicKey::try_from_slice(&u).unwrap());
        // the key can be used again
        sym::check(a.is_ok() == b.is_ok(), 1);
        if let (Ok(a), Ok(b)) = (&a, &b) {
            sym::eq(a, &b.0, 2);
        }
        b
    };
    if v.r == &[0u8; 32] {
        sym::check(got.is_err(), 3);
        sym::check(got.err() == Some(Error::NotOnCurve), 4);
        sym::reach(2);
    } else {
        sym::check(got.is_ok(), 5);
        let got = got.ok().unwrap();
        sym::eq(&got.as_bytes(), v.r, 6);
        sym::eq(&got.0, v.r, 7);
        sym::reach(1);
    }
}

/// public keys. params: lo, hi
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_x25519_base() {
    let v = &X25519_BASE[pick(sym::param(0), sym::param(1).min(X25519_BASE.len()), 1)];
    let x = sym::arr::<2>(2);
    let mut k = *v.k;
    k[0] ^= x[0] & 7;
    k[31] ^= x[1] & 0xc0;
    let key = StaticPrivateKey::from_array(&k);
    sym::eq(&key.as_bytes(), &k, 1);
    sym::eq(&key.public_key().as_bytes(), v.r, 2);
    rng::state().fixed = Some(vec![0; 32]);
    rng::state().fixed.as_mut().unwrap().copy_from_slice(&k);
    let key = StaticPrivateKey::new_random().unwrap();
    sym::eq(&key.as_bytes(), &k, 3);
    sym::eq(&key.public_key().as_bytes(), v.r, 4);
    sym::eq(&PrivateKey::new_random().unwrap().public_key().as_bytes(), v.r, 5);
    sym::reach(1);
}

/// import and export of all values. params: length
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_x25519_len() {
    let n = sym::param(0);
    let b = sym::vec(n, 1);
    let k = StaticPrivateKey::try_from_slice(&b);
    let p = PublicKey::try_from_slice(&b);
    if n == 32 {
        sym::check(k.is_ok() & p.is_ok(), 1);
        sym::eq(&k.ok().unwrap().as_bytes(), &b, 2);
        sym::eq(&p.ok().unwrap().as_bytes(), &b, 3);
        let mut a = [0u8; 32];
        a.copy_from_slice(&b);
        sym::eq(&StaticPrivateKey::from_array(&a).as_bytes(), &b, 4);
        sym::eq(&PublicKey::from_array(&a).as_bytes(), &b, 5);
        // fresh keys are the fresh random bytes
        rng::state().keep = true;
        let k = StaticPrivateKey::new_random().unwrap();
        sym::check(rng::state().log.concat().len() == 32, 6);
        sym::eq(&k.as_bytes(), &rng::state().log.concat(), 7);
        sym::reach(1);
    } else {
        sym::check(k.err() == Some(Error::WrongLength), 8);
        sym::check(p.err() == Some(Error::WrongLength), 9);
        sym::reach(2);
    }
}

// ---------------------------------------------------------------- Ed25519

/// params: lo, hi
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_ed_sign() {
    let v = &ED_SIGN[pick(sym::param(0), sym::param(1).min(ED_SIGN.len()), 1)];
    let k = Ed25519SigningKey::from_bytes(v.seed).unwrap();
    sym::eq(&k.as_seed(), v.seed, 1);
    sym::eq(&k.public_key().as_bytes(), v.pk, 2);
    sym::eq(&k.sign(v.msg), v.sig, 3);
    // deterministic
    sym::eq(&k.sign(v.msg), v.sig, 4);
    let p = Ed25519VerifyingKey::from_bytes(v.pk);
    sym::check(p.is_ok(), 5);
    sym::check(p.unwrap().verify(v.sig, v.msg).is_ok(), 6);
    sym::check(k.public_key().verify(v.sig, v.msg).is_ok(), 7);
    // a generated key is the fresh random seed
    rng::state().fixed = Some(v.seed.to_vec());
    let k = Ed25519SigningKey::generate().unwrap();
    sym::eq(&k.as_seed(), v.seed, 8);
    sym::eq(&k.public_key().as_bytes(), v.pk, 9);
    sym::eq(&k.sign(v.msg), v.sig, 10);
    sym::reach(1);
}

/// constructed edge cases. params: lo, hi
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_ed_verify() {
    let v = &ED_VERIFY[pick(sym::param(0), sym::param(1).min(ED_VERIFY.len()), 1)];
    let got = Ed25519VerifyingKey::from_bytes(v.pk).and_then(|k| k.verify(v.sig, v.msg));
    sym::check(got.is_ok() == v.ok, 1);
    sym::reach(1);
}

/// a valid signature with any one byte changed. params: row, lo, hi (position in pk, signature, message)
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_ed_flip() {
    let v = &ED_SIGN[sym::param(0)];
    let (mut pk, mut sig, mut msg) = (*v.pk, *v.sig, v.msg.to_vec());
    let p = pick(sym::param(1), sym::param(2).min(96 + msg.len()), 1);
    let d = 1u8 << pick(0, 8, 2);
    match p {
        0..32 => pk[p] ^= d,
        32..96 => sig[p - 32] ^= d,
        _ => msg[p - 96] ^= d,
    }
    let got = Ed25519VerifyingKey::from_bytes(&pk).and_then(|k| k.verify(&sig, &msg));
    sym::check(got.is_err(), 1);
    sym::reach(1);
}

/// S >= L is never accepted, whatever the rest. params: row, message length
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_ed_range() {
    const L: [u8; 32] = *b"\x10\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\x14\xde\xf9\xde\xa2\xf7\x9c\xd6\x58\x12\x63\x1a\x5c\xf5\xd3\xed";
    let v = &ED_SIGN[sym::param(0)];
    let sig = sym::vec(64, 1);
    let msg = sym::vec(sym::param(1), 2);
    let mut s = sig[32..].to_vec();
    s.reverse();
    sym::assume(!lt(&s, &L));
    let k = Ed25519VerifyingKey::from_bytes(v.pk).unwrap();
    sym::check(k.verify(&sig, &msg) == Err(Error::BadSignature), 1);
    sym::reach(1);
}

/// lengths. params: length, 0 signature, 1 public key, 2 seed
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_ed_len() {
    let (n, what) = (sym::param(0), sym::param(1));
    let b = sym::vec(n, 1);
    match what {
        0 => {
            let k = Ed25519VerifyingKey::from_bytes(ED_SIGN[1].pk).unwrap();
            sym::check(k.verify(&b, b"x") == Err(Error::BadSignature), 1);
        }
        1 => sym::check(Ed25519VerifyingKey::from_bytes(&b).err() == Some(Error::WrongLength), 2),
        _ => sym::check(Ed25519SigningKey::from_bytes(&b).err() == Some(Error::WrongLength), 3),
    }
    sym::reach(1);
}

/// encodings of points. params: lo, hi
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_ed_point() {
    let (p, ok) = ED_POINTS[pick(sym::param(0), sym::param(1).min(ED_POINTS.len()), 1)];
    match Ed25519VerifyingKey::from_bytes(p) {
        Ok(k) => {
            sym::check(ok, 1);
            sym::eq(&k.as_bytes(), p, 2);
        }
        Err(e) => sym::check(!ok && e == Error::NotOnCurve, 3),
    }
    sym::reach(1);
}
