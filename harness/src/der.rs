//! Key encodings
use crate::ec::{der_int, der_take, is_zero, lt, pick, tlv};
use crate::sym;
use crate::vec_ec::{N_P256, N_P384};
use crate::vec_ed::*;
use crate::vec_rsa::KEYS;
use graviola::Error;
use graviola::signing::{ecdsa, eddsa::*, rsa};

const OID_ED: &[u8] = b"\x06\x03\x2b\x65\x70";
const OID_RSA: &[u8] = b"\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01";
const OID_EC: &[u8] = b"\x06\x07\x2a\x86\x48\xce\x3d\x02\x01";
const OID_256: &[u8] = b"\x06\x08\x2a\x86\x48\xce\x3d\x03\x01\x07";
const OID_384: &[u8] = b"\x06\x05\x2b\x81\x04\x00\x22";
const NULL: &[u8] = b"\x05\x00";

/// formats
const ED_P8: usize = 0;
const ED_SPKI: usize = 1;
const SEC1_256: usize = 2;
const SEC1_384: usize = 3;
const P8_256: usize = 4;
const P8_384: usize = 5;
const RSA_PUB: usize = 6;
const RSA_PRIV: usize = 7;
const RSA_P8: usize = 8;

fn cat(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}
fn seq(parts: &[&[u8]]) -> Vec<u8> {
    tlv(0x30, &cat(parts))
}
fn bits(b: &[u8]) -> Vec<u8> {
    cat(&[&[0], b])
}
fn curve(f: usize) -> usize {
    f & 1
}
fn oid(c: usize) -> &'static [u8] {
    if c == 0 { OID_256 } else { OID_384 }
}

/// Documents: `var` bit 0 drops the public key, bit 1 changes the presence of parameters (EC),
/// bits 2.. put something unexpected at a chosen place (see `extra`)
fn doc(f: usize, row: usize, var: usize, extra: &dyn Fn(usize) -> Vec<u8>) -> Vec<u8> {
    let x = |i| extra(i);
    match f {
        ED_P8 => {
            let k = &ED_SIGN[row];
            let inner = cat(&[&tlv(4, k.seed), &x(3)]);
            let pk = if var & 1 == 0 { tlv(0x81, &bits(k.pk)) } else { vec![] };
            let v = tlv(2, &[1 - (var & 1) as u8]);
            cat(&[&seq(&[&v, &x(0), &seq(&[OID_ED, &x(1)]), &x(2), &tlv(4, &inner), &x(4), &pk, &x(5)]), &x(6)])
        }
        ED_SPKI => {
            let k = &ED_SIGN[row];
            cat(&[&seq(&[&x(0), &seq(&[OID_ED, &x(1)]), &x(2), &tlv(3, &bits(k.pk)), &x(5)]), &x(6)])
        }
        SEC1_256 | SEC1_384 => {
            let k = &EC_KEYS[row];
            let params = if var & 2 == 0 { tlv(0xa0, &cat(&[oid(k.c), &x(2)])) } else { vec![] };
            let pk = if var & 1 == 0 { tlv(0xa1, &cat(&[&tlv(3, &bits(k.q)), &x(3)])) } else { vec![] };
            cat(&[&seq(&[&tlv(2, &[1]), &x(0), &tlv(4, k.d), &x(1), &params, &x(4), &pk, &x(5)]), &x(6)])
        }
        P8_256 | P8_384 => {
            let k = &EC_KEYS[row];
            let inner = doc(f - 2, row, var ^ 2, &|i| if i == 6 { extra(3) } else { vec![] });
            cat(&[&seq(&[&tlv(2, &[0]), &x(0), &seq(&[OID_EC, oid(k.c), &x(1)]), &x(2), &tlv(4, &inner), &x(4), &x(5)]), &x(6)])
        }
        RSA_PUB => {
            let k = &KEYS[row];
            cat(&[&seq(&[&x(0), &der_int(k.n), &x(1), &der_int(&k.e.to_be_bytes()), &x(5)]), &x(6)])
        }
        RSA_PRIV => {
            let k = &KEYS[row];
            let e = k.e.to_be_bytes();
            let ints: Vec<Vec<u8>> = [k.n, &e, k.d, k.p, k.q, k.dp, k.dq, k.iq].iter().map(|i| der_int(i)).collect();
            cat(&[&seq(&[&tlv(2, &[0]), &x(0), &ints.concat(), &x(5)]), &x(6)])
        }
        _ => {
            let inner = doc(RSA_PRIV, row, var, &|i| if i == 6 { extra(3) } else { vec![] });
            cat(&[&seq(&[&tlv(2, &[0]), &x(0), &seq(&[OID_RSA, NULL, &x(1)]), &x(2), &tlv(4, &inner), &x(4), &x(5)]), &x(6)])
        }
    }
}
fn none(_: usize) -> Vec<u8> {
    vec![]
}

/// Decoded by graviola: the canonical re-encoding in the same format
fn real(f: usize, d: &[u8], out: &mut [u8]) -> Result<usize, Error> {
    Ok(match f {
        ED_P8 => Ed25519SigningKey::from_pkcs8_der(d)?.to_pkcs8_der(out)?,
        ED_SPKI => Ed25519VerifyingKey::from_spki_der(d)?.to_spki_der(out)?,
        SEC1_256 => ecdsa::SigningKey::<ecdsa::P256>::from_sec1_der(d)?.to_sec1_der(out)?,
        SEC1_384 => ecdsa::SigningKey::<ecdsa::P384>::from_sec1_der(d)?.to_sec1_der(out)?,
        P8_256 => ecdsa::SigningKey::<ecdsa::P256>::from_pkcs8_der(d)?.to_pkcs8_der(out)?,
        P8_384 => ecdsa::SigningKey::<ecdsa::P384>::from_pkcs8_der(d)?.to_pkcs8_der(out)?,
        RSA_PUB => rsa::VerifyingKey::from_pkcs1_der(d)?.to_pkcs1_der(out)?,
        RSA_PRIV => rsa::SigningKey::from_pkcs1_der(d)?.to_pkcs1_der(out)?,
        _ => rsa::SigningKey::from_pkcs8_der(d)?.to_pkcs8_der(out)?,
    }
    .len())
}
/// Decoded by graviola, without encoding: the value of the key where it can be had without arithmetic
fn decode(f: usize, d: &[u8]) -> Option<Vec<u8>> {
    Some(match f {
        ED_P8 => Ed25519SigningKey::from_pkcs8_der(d).ok()?.as_seed().to_vec(),
        ED_SPKI => Ed25519VerifyingKey::from_spki_der(d).ok()?.as_bytes().to_vec(),
        SEC1_256 => ecdsa::SigningKey::<ecdsa::P256>::from_sec1_der(d).ok()?.private_key.as_bytes().to_vec(),
        SEC1_384 => ecdsa::SigningKey::<ecdsa::P384>::from_sec1_der(d).ok()?.private_key.as_bytes().to_vec(),
        P8_256 => ecdsa::SigningKey::<ecdsa::P256>::from_pkcs8_der(d).ok()?.private_key.as_bytes().to_vec(),
        P8_384 => ecdsa::SigningKey::<ecdsa::P384>::from_pkcs8_der(d).ok()?.private_key.as_bytes().to_vec(),
        RSA_PUB => rsa::VerifyingKey::from_pkcs1_der(d).ok().map(|_| vec![])?,
        RSA_PRIV => rsa::SigningKey::from_pkcs1_der(d).ok().map(|_| vec![])?,
        _ => rsa::SigningKey::from_pkcs8_der(d).ok().map(|_| vec![])?,
    })
}

#[derive(PartialEq)]
enum Want {
    Reject,
    /// the decoded value, and whether the document is the one graviola writes
    Key(Vec<u8>),
    /// what the values mean is not looked at
    Any,
}
use Want::*;

fn whole(b: &[u8], tag: u8) -> Option<&[u8]> {
    let (v, rest) = der_take(b, tag)?;
    if rest.is_empty() { Some(v) } else { None }
}
fn expect<'a>(b: &'a [u8], what: &[u8]) -> Option<&'a [u8]> {
    if b.len() >= what.len() && sym::memeq(&b[..what.len()], what) { Some(&b[what.len()..]) } else { None }
}
/// PKCS#8: (version, rest after the algorithm)
fn p8<'a>(b: &'a [u8], alg: &[&[u8]]) -> Option<(u8, &'a [u8], Option<&'a [u8]>)> {
    let b = whole(b, 0x30)?;
    let (v, b) = der_take(b, 2)?;
    if v.len() != 1 || v[0] > 1 {
        return None;
    }
    let (a, b) = der_take(b, 0x30)?;
    let a = expect(a, &alg.concat())?;
    if !a.is_empty() {
        return None;
    }
    let (key, b) = der_take(b, 4)?;
    let public = if b.is_empty() {
        None
    } else {
        let p = whole(b, 0x81)?;
        if p.is_empty() || p[0] != 0 {
            return None;
        }
        Some(&p[1..])
    };
    if (v[0] == 1) != public.is_some() {
        return None;
    }
    Some((v[0], key, public))
}
fn want_sec1(b: &[u8], row: usize) -> Option<Want> {
    let k = &EC_KEYS[row];
    let n = if k.c == 0 { N_P256 } else { N_P384 };
    let b = whole(b, 0x30)?;
    let mut b = expect(b, &[2, 1, 1])?;
    let (d, r) = der_take(b, 4)?;
    b = r;
    if !b.is_empty() && b[0] == 0xa0 {
        let (p, r) = der_take(b, 0xa0)?;
        if !expect(p, oid(k.c))?.is_empty() {
            return None;
        }
        b = r;
    }
    // the scalar, left-padded
    let mut v = vec![0u8; n.len()];
    if d.len() <= v.len() {
        let at = v.len() - d.len();
        v[at..].copy_from_slice(d);
    } else {
        let at = d.len() - v.len();
        if !is_zero(&d[..at]) {
            return None;
        }
        v.copy_from_slice(&d[at..]);
    }
    if is_zero(&v) || !lt(&v, n) {
        return None;
    }
    if !b.is_empty() {
        let p = whole(whole(b, 0xa1)?, 3)?;
        if p.is_empty() || p[0] != 0 {
            return None;
        }
        // no other scalar of the ones tried here has this public key
        if !sym::memeq(&v, k.d) || !sym::memeq(&p[1..], k.q) {
            return None;
        }
    }
    Some(Key(v))
}
/// minimal two's complement integer
fn int(b: &[u8]) -> Option<(&[u8], &[u8])> {
    let (v, rest) = der_take(b, 2)?;
    if v.is_empty() || (v.len() > 1 && ((v[0] == 0 && v[1] < 0x80) || (v[0] == 0xff && v[1] >= 0x80))) {
        return None;
    }
    Some((v, rest))
}
fn public_ints(b: &[u8]) -> Option<&[u8]> {
    let (n, b) = int(b)?;
    let (e, b) = int(b)?;
    if n[0] >= 0x80 || e[0] >= 0x80 || n[n.len() - 1] & 1 == 0 || is_zero(e) || e.len() > 5 || (e.len() == 5 && e[0] != 0) {
        return None;
    }
    Some(b)
}
fn want_rsa(b: &[u8]) -> Option<Want> {
    let b = whole(b, 0x30)?;
    let b = expect(b, &[2, 1, 0])?;
    let mut b = public_ints(b)?;
    for _ in 0..6 {
        b = int(b)?.1;
    }
    if b.is_empty() { Some(Any) } else { None }
}
fn want(f: usize, b: &[u8], row: usize) -> Want {
    (|| -> Option<Want> {
        match f {
            ED_P8 => {
                let (_, key, public) = p8(b, &[OID_ED])?;
                let seed = whole(key, 4)?;
                if seed.len() != 32 {
                    return None;
                }
                if let Some(p) = public {
                    if !sym::memeq(seed, ED_SIGN[row].seed) || !sym::memeq(p, ED_SIGN[row].pk) {
                        return None;
                    }
                }
                Some(Key(seed.to_vec()))
            }
            ED_SPKI => {
                let b = whole(b, 0x30)?;
                let (a, b) = der_take(b, 0x30)?;
                if !expect(a, OID_ED)?.is_empty() {
                    return None;
                }
                let p = whole(b, 3)?;
                if p.len() != 33 || p[0] != 0 {
                    return None;
                }
                Some(if sym::memeq(&p[1..], ED_SIGN[row].pk) { Key(p[1..].to_vec()) } else { Any })
            }
            SEC1_256 | SEC1_384 => want_sec1(b, row),
            P8_256 | P8_384 => {
                let (_, key, _) = p8(b, &[OID_EC, oid(curve(f))])?;
                want_sec1(key, row)
            }
            RSA_PUB => {
                let b = whole(b, 0x30)?;
                if public_ints(b)?.is_empty() { Some(Any) } else { None }
            }
            RSA_PRIV => want_rsa(b),
            _ => {
                let (_, key, _) = p8(b, &[OID_RSA, NULL])?;
                want_rsa(key)
            }
        }
    })()
    .unwrap_or(Reject)
}
fn judge(f: usize, b: &[u8], row: usize) {
    let w = want(f, b, row);
    let got = decode(f, b);
    match (&w, &got) {
        (Reject, g) => {
            sym::check(g.is_none(), 1);
            sym::reach(1);
        }
        (Key(k), Some(g)) => {
            sym::eq(g, k, 2);
            sym::reach(2);
        }
        (Key(_), None) => sym::check(false, 3),
        (Any, None) => sym::reach(3),
        (Any, Some(_)) => {
            if f == RSA_PUB {
                // one encoding per key
                let mut o = vec![0; b.len()];
                sym::check(real(f, b, &mut o) == Ok(b.len()), 4);
                sym::eq(&o, b, 5);
            }
            sym::reach(3)
        }
    }
}

/// documents written by others, and by graviola. params: format, row, variant
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_der_good() {
    let (f, row, var) = (sym::param(0), sym::param(1), sym::param(2));
    let d = doc(f, row, var, &none);
    let canon = doc(f, row, 0, &none);
    let mut buf = vec![0x5a; canon.len() + 3];
    let got = real(f, &d, &mut buf);
    sym::check(got == Ok(canon.len()), 1);
    sym::eq(&buf[..canon.len()], &canon, 2);
    sym::check(buf[canon.len()..] == [0x5a; 3], 3);
    // into a buffer of just that size
    let mut buf = vec![0; canon.len()];
    sym::check(real(f, &canon, &mut buf) == Ok(canon.len()), 4);
    sym::eq(&buf, &canon, 5);
    // other ways to write the public half
    let mut o = vec![0; 2048];
    match f {
        ED_P8 => {
            let k = Ed25519SigningKey::from_pkcs8_der(&d).unwrap();
            sym::eq(&k.as_seed(), ED_SIGN[row].seed, 6);
            sym::eq(&k.public_key().as_bytes(), ED_SIGN[row].pk, 6);
            sym::eq(k.public_key().to_spki_der(&mut o).unwrap(), &doc(ED_SPKI, row, 0, &none), 7);
        }
        SEC1_256 | P8_256 => {
            let k = if f == SEC1_256 { ecdsa::SigningKey::<ecdsa::P256>::from_sec1_der(&d) } else { ecdsa::SigningKey::from_pkcs8_der(&d) }.unwrap();
            let want = seq(&[&seq(&[OID_EC, OID_256]), &tlv(3, &bits(EC_KEYS[row].q))]);
            sym::eq(k.to_spki_der(&mut o).unwrap(), &want, 7);
            let mut small = vec![0; want.len() - 1];
            sym::check(k.to_spki_der(&mut small) == Err(Error::WrongLength), 8);
        }
        SEC1_384 | P8_384 => {
            let k = if f == SEC1_384 { ecdsa::SigningKey::<ecdsa::P384>::from_sec1_der(&d) } else { ecdsa::SigningKey::from_pkcs8_der(&d) }.unwrap();
            let want = seq(&[&seq(&[OID_EC, OID_384]), &tlv(3, &bits(EC_KEYS[row].q))]);
            sym::eq(k.to_spki_der(&mut o).unwrap(), &want, 7);
            let mut small = vec![0; want.len() - 1];
            sym::check(k.to_spki_der(&mut small) == Err(Error::WrongLength), 8);
        }
        RSA_PUB | RSA_PRIV | RSA_P8 => {
            let k = match f {
                RSA_PUB => rsa::VerifyingKey::from_pkcs1_der(&d).unwrap(),
                RSA_PRIV => rsa::SigningKey::from_pkcs1_der(&d).unwrap().public_key(),
                _ => rsa::SigningKey::from_pkcs8_der(&d).unwrap().public_key(),
            };
            let public = doc(RSA_PUB, row, 0, &none);
            sym::eq(k.to_pkcs1_der(&mut o).unwrap(), &public, 6);
            let want = seq(&[&seq(&[OID_RSA, NULL]), &tlv(3, &bits(&public))]);
            sym::eq(k.to_spki_der(&mut o).unwrap(), &want, 7);
            let mut small = vec![0; want.len() - 1];
            sym::check(k.to_spki_der(&mut small).is_err(), 8);
        }
        _ => (),
    }
    sym::reach(1);
}

/// too little room for the encoding. params: format, row, lo, hi
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_der_small() {
    let (f, row) = (sym::param(0), sym::param(1));
    let d = doc(f, row, 0, &none);
    let n = pick(sym::param(2), sym::param(3).min(d.len()), 1);
    let mut buf = vec![0u8; n];
    match real(f, &d, &mut buf) {
        Ok(_) => sym::check(false, 1),
        Err(e) => sym::check(f >= RSA_PUB || e == Error::WrongLength, 2),
    }
    sym::reach(1);
}

/// the document cut short. params: format, row, lo, hi
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_der_short() {
    let (f, row) = (sym::param(0), sym::param(1));
    let d = doc(f, row, 0, &none);
    let n = pick(sym::param(2), sym::param(3).min(d.len()), 1);
    sym::check(decode(f, &d[..n]).is_none(), 1);
    sym::reach(1);
}

/// one byte replaced by any other: structure. params: format, row, variant, lo, hi
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_der_byte() {
    let (f, row, var) = (sym::param(0), sym::param(1), sym::param(2));
    let mut d = doc(f, row, var, &none);
    let p = pick(sym::param(3), sym::param(4).min(d.len()), 1);
    if opaque(f, row, &d, p) {
        // a value that goes into the arithmetic: its bits, one at a time
        d[p] ^= 1 << pick(0, 8, 2);
    } else {
        d[p] = sym::u8(2);
    }
    judge(f, &d, row);
}
fn find(d: &[u8], what: &[u8]) -> Option<core::ops::Range<usize>> {
    let at = d.windows(what.len()).position(|w| w == what)?;
    Some(at..at + what.len())
}
fn opaque(f: usize, row: usize, d: &[u8], p: usize) -> bool {
    let vals: Vec<&[u8]> = match f {
        ED_P8 => vec![ED_SIGN[row].seed],
        ED_SPKI => vec![ED_SIGN[row].pk],
        SEC1_256..=P8_384 => vec![EC_KEYS[row].d],
        _ => {
            let k = &KEYS[row];
            // everything from the modulus on but the headers
            return match (find(d, k.n), f) {
                (Some(n), RSA_PUB) => n.contains(&p),
                (Some(n), _) => p >= n.start,
                _ => true,
            };
        }
    };
    vals.iter().any(|v| find(d, v).is_some_and(|r| r.contains(&p)))
}

/// something unexpected between the fields. params: format, row, variant, place, length
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_der_extra() {
    let (f, row, var, place, len) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3), sym::param(4));
    let x = sym::vec(len, 1);
    let d = doc(f, row, var, &|i| if i == place { x.clone() } else { vec![] });
    judge(f, &d, row);
}

/// any short string at all. params: format, length
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_der_any() {
    let (f, len) = (sym::param(0), sym::param(1));
    let d = sym::vec(len, 1);
    judge(f, &d, if curve(f) == 1 && f >= SEC1_256 { 4 } else { 0 });
}

/// the documents of one kind of key are not taken for another. params: format of the document, row, variant, reader
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_der_cross() {
    let (f, row, var, g) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3));
    let d = doc(f, row, var, &none);
    let explicit = !(f == SEC1_256 || f == SEC1_384) || var & 2 == 0;
    if f != g && explicit {
        sym::check(decode(g, &d).is_none(), 1);
    }
    sym::reach(1);
}
