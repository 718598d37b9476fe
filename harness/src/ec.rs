//! ECDSA, EC keys, ECDH on P-256 and P-384
use crate::vec_ec::*;
use crate::{refs, rng, sym};
use graviola::hashing::{Hash, Sha256, Sha384, Sha512};
use graviola::key_agreement::{p256, p384};
use graviola::signing::ecdsa::*;

pub const MSG: &[u8] = b"message to be signed";

/// a selector in lo..hi, chosen by the solver
pub fn pick(lo: usize, hi: usize, tag: u32) -> usize {
    let s = sym::u8(tag) as usize;
    sym::assume(s < hi.saturating_sub(lo).min(256));
    lo + sym::concrete(s)
}

/// big-endian a < b
pub fn lt(a: &[u8], b: &[u8]) -> bool {
    let mut borrow = 0i32;
    for i in (0..a.len()).rev() {
        borrow = (a[i] as i32 - b[i] as i32 - borrow < 0) as i32;
    }
    borrow == 1
}
pub fn is_zero(a: &[u8]) -> bool {
    sym::memeq(a, &vec![0; a.len()])
}

// ---------------------------------------------------------------- a strict DER reference

/// minimal, definite length; returns (body, rest)
pub fn der_take(b: &[u8], tag: u8) -> Option<(&[u8], &[u8])> {
    if b.len() < 2 || b[0] != tag {
        return None;
    }
    let (h, l) = match b[1] {
        l if l < 0x80 => (2, l as usize),
        0x81 if b.len() >= 3 && b[2] >= 0x80 => (3, b[2] as usize),
        0x82 if b.len() >= 4 && b[2] != 0 => (4, (b[2] as usize) << 8 | b[3] as usize),
        _ => return None,
    };
    if b.len() - h < l {
        return None;
    }
    Some((&b[h..h + l], &b[h + l..]))
}
/// non-negative minimal integer: its magnitude without leading zeros
pub fn der_uint(b: &[u8]) -> Option<(&[u8], &[u8])> {
    let (v, rest) = der_take(b, 2)?;
    if v.is_empty() || v[0] >= 0x80 {
        return None;
    }
    if v.len() > 1 && v[0] == 0 && v[1] < 0x80 {
        return None;
    }
    Some((if v[0] == 0 { &v[1..] } else { v }, rest))
}
fn strip(mut b: &[u8]) -> &[u8] {
    while !b.is_empty() && b[0] == 0 {
        b = &b[1..];
    }
    b
}
pub fn der_len(n: usize) -> Vec<u8> {
    match n {
        0..=0x7f => vec![n as u8],
        0x80..=0xff => vec![0x81, n as u8],
        _ => vec![0x82, (n >> 8) as u8, n as u8],
    }
}
pub fn tlv(tag: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    v.extend(der_len(body.len()));
    v.extend_from_slice(body);
    v
}
pub fn der_int(mag: &[u8]) -> Vec<u8> {
    let m = strip(mag);
    let mut b = vec![];
    if m.is_empty() || m[0] >= 0x80 {
        b.push(0);
    }
    b.extend_from_slice(m);
    tlv(2, &b)
}
pub fn der_sig(r: &[u8], s: &[u8]) -> Vec<u8> {
    let mut b = der_int(r);
    b.extend(der_int(s));
    tlv(0x30, &b)
}

// ---------------------------------------------------------------- verification

fn table(c: usize, h: usize) -> &'static [Sig] {
    match (c, h) {
        (0, 0) => SIG_P256_SHA256,
        (0, 2) => SIG_P256_SHA512,
        (1, 0) => SIG_P384_SHA256,
        (1, 1) => SIG_P384_SHA384,
        _ => SIG_P384_SHA512,
    }
}

fn ver_t<C: Curve, H: Hash>(q: &[u8], msg: &[&[u8]], sig: &[u8], der: bool) -> bool {
    let Ok(k) = VerifyingKey::<C>::from_x962_uncompressed(q) else { return false };
    if der { k.verify_asn1::<H>(msg, sig).is_ok() } else { k.verify::<H>(msg, sig).is_ok() }
}
fn ver(c: usize, h: usize, q: &[u8], msg: &[&[u8]], sig: &[u8], der: bool) -> bool {
    match (c, h) {
        (0, 0) => ver_t::<P256, Sha256>(q, msg, sig, der),
        (0, 1) => ver_t::<P256, Sha384>(q, msg, sig, der),
        (0, 2) => ver_t::<P256, Sha512>(q, msg, sig, der),
        (1, 0) => ver_t::<P384, Sha256>(q, msg, sig, der),
        (1, 1) => ver_t::<P384, Sha384>(q, msg, sig, der),
        _ => ver_t::<P384, Sha512>(q, msg, sig, der),
    }
}

/// edge-case signatures. params: curve, hash, lo, hi (range of the table)
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_ecdsa_edge() {
    let (c, h) = (sym::param(0), sym::param(1));
    let t = table(c, h);
    let v = &t[pick(sym::param(2), sym::param(3).min(t.len()), 1)];
    let mut fixed = v.r.to_vec();
    fixed.extend_from_slice(v.s);
    let cut = pick(0, 3, 2) * 10;
    let msg = [&MSG[..cut], b"", &MSG[cut..]];
    let got = ver(c, h, v.q, &msg, &fixed, false);
    sym::check(got == v.ok, 1);
    let got = ver(c, h, v.q, &msg, &der_sig(v.r, v.s), true);
    sym::check(got == v.ok, 2);
    sym::reach(if v.ok { 1 } else { 2 });
}
/// number of vectors, for the job list
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_ecdsa_badlen() {
    let (c, n, der) = (sym::param(0), sym::param(1), sym::param(2) != 0);
    let t = table(c, c);
    let sig = sym::vec(n, 1);
    sym::check(!ver(c, c, t[0].q, &[MSG], &sig, der), 1);
}

/// r and s symbolic, one of them outside [1, n-1]: rejected
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_ecdsa_range() {
    let c = sym::param(0);
    let n = if c == 0 { N_P256 } else { N_P384 };
    let sig = sym::vec(2 * n.len(), 1);
    let (r, s) = sig.split_at(n.len());
    let ok = !is_zero(r) & lt(r, n) & !is_zero(s) & lt(s, n);
    let t = table(c, c);
    if sym::param(1) == 1 {
        // through DER, minimal encodings of full-size integers
        let mut d = vec![0x30, (2 * n.len() + 6) as u8, 2, n.len() as u8 + 1, 0];
        d.extend_from_slice(r);
        d.extend_from_slice(&[2, n.len() as u8 + 1, 0]);
        d.extend_from_slice(s);
        sym::assume(r[0] >= 0x80 && s[0] >= 0x80);
        sym::assume(!ok);
        sym::check(!ver(c, c, t[0].q, &[MSG], &d, true), 2);
    } else {
        sym::assume(!ok);
        sym::check(!ver(c, c, t[0].q, &[MSG], &sig, false), 1);
    }
    sym::reach(1);
}

/// DER strictness. params: curve, vector, symbolic parts (1 outer header, 2 header of r, 4 header of s),
/// pad bytes before r, pad bytes before s (symbolic), trailing bytes (symbolic), 1: trailing inside the sequence
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_ecdsa_der() {
    let (c, vi, parts) = (sym::param(0), sym::param(1), sym::param(2));
    let (pr, ps, tr, inside) = (sym::param(3), sym::param(4), sym::param(5), sym::param(6) != 0);
    // the vi-th of the right signatures
    let v = table(c, c).iter().filter(|v| v.ok).nth(vi).unwrap();
    let int = |x: &[u8], pad: usize, on: bool, tag: u32| {
        let m = strip(x);
        let mut b = sym::vec(pad, tag);
        if pad > 0 && m.len() < x.len() {
            // not another number in range
            sym::assume(b[0] >= 0x80 || b.iter().all(|&y| y == 0));
        }
        b.extend_from_slice(m);
        let mut o = vec![2, b.len() as u8];
        if on {
            sym::bytes(&mut o, tag + 1);
        }
        o.extend(b);
        o
    };
    let mut body = int(v.r, pr, parts & 2 != 0, 10);
    body.extend(int(v.s, ps, parts & 4 != 0, 20));
    let trail = sym::vec(tr, 30);
    if inside {
        body.extend_from_slice(&trail);
    }
    let mut hdr = vec![0x30];
    hdr.extend(der_len(body.len()));
    if parts & 1 != 0 {
        sym::bytes(&mut hdr, 31);
    }
    if parts & 8 != 0 {
        // a longer length form
        let n = hdr.len();
        hdr = vec![0x30; n + 1];
        sym::bytes(&mut hdr[1..], 32);
    }
    hdr.extend_from_slice(&body);
    if !inside {
        hdr.extend_from_slice(&trail);
    }
    let want = (|| {
        let (b, rest) = der_take(&hdr, 0x30)?;
        let (r, b) = der_uint(b)?;
        let (s, b) = der_uint(b)?;
        (rest.is_empty() && b.is_empty() && r == strip(v.r) && s == strip(v.s)).then_some(())
    })()
    .is_some();
    let got = ver(c, c, v.q, &[MSG], &hdr, true);
    sym::check(got == want, 1);
    sym::reach(if want { 1 } else { 2 });
}

// ---------------------------------------------------------------- public keys and ECDH

fn pts(c: usize) -> &'static [Pt] {
    if c == 0 { PTS_P256 } else { PTS_P384 }
}
fn pub_parse(c: usize, b: &[u8]) -> Option<Vec<u8>> {
    if c == 0 {
        p256::PublicKey::from_x962_uncompressed(b).ok().map(|k| k.as_bytes_uncompressed().to_vec())
    } else {
        p384::PublicKey::from_x962_uncompressed(b).ok().map(|k| k.as_bytes_uncompressed().to_vec())
    }
}
fn vk_parse(c: usize, b: &[u8]) -> bool {
    if c == 0 { VerifyingKey::<P256>::from_x962_uncompressed(b).is_ok() } else { VerifyingKey::<P384>::from_x962_uncompressed(b).is_ok() }
}

/// params: curve, lo, hi: points; the format byte is symbolic
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_ec_point() {
    let c = sym::param(0);
    let t = pts(c);
    let p = &t[pick(sym::param(1), sym::param(2).min(t.len()), 1)];
    let fmt = sym::u8(2);
    let mut e = vec![fmt];
    e.extend_from_slice(p.xy);
    let got = pub_parse(c, &e);
    let want = (fmt == 4) & p.ok;
    sym::check(got.is_some() == want, 1);
    if let Some(g) = got {
        sym::eq(&g, &e, 2);
        sym::reach(1);
    } else {
        sym::reach(2);
    }
    sym::check(vk_parse(c, &e) == want, 3);
}

/// params: curve, length: wrong lengths, all bytes symbolic
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_ec_point_len() {
    let (c, n) = (sym::param(0), sym::param(1));
    let mut b = sym::vec(n, 1);
    sym::check(pub_parse(c, &b).is_none(), 1);
    sym::check(!vk_parse(c, &b), 2);
    // a right encoding, cut short or with trailing bytes
    let xy = pts(c)[0].xy;
    let m = n.min(1 + xy.len());
    if n > 0 {
        b[..1].fill(4);
        b[1..m].copy_from_slice(&xy[..m - 1]);
        sym::check(pub_parse(c, &b).is_none(), 3);
        sym::check(!vk_parse(c, &b), 4);
    }
}

/// coordinates symbolic, one of them p or more: rejected
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_ec_point_range() {
    let c = sym::param(0);
    let p = if c == 0 { P_P256 } else { P_P384 };
    let mut e = vec![4];
    e.extend(sym::vec(2 * p.len(), 1));
    let (x, y) = e[1..].split_at(p.len());
    sym::assume(!(lt(x, p) & lt(y, p)));
    sym::check(pub_parse(c, &e).is_none(), 1);
    sym::reach(1);
}

/// private scalars: accepted iff in [1, n-1]. params: curve, length
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_ec_scalar() {
    let (c, len) = (sym::param(0), sym::param(1));
    let n = if c == 0 { N_P256 } else { N_P384 };
    let b = sym::vec(len, 1);
    // value as a full-size number, and whether it fits
    let k = n.len();
    let mut v = vec![0u8; k];
    let mut high_zero = true;
    if len <= k {
        v[k - len..].copy_from_slice(&b);
    } else {
        v.copy_from_slice(&b[len - k..]);
        high_zero = is_zero(&b[..len - k]);
    }
    let want = high_zero & !is_zero(&v) & lt(&v, n);
    let got = if c == 0 {
        p256::StaticPrivateKey::from_bytes(&b).ok().map(|k| k.as_bytes().to_vec())
    } else {
        p384::StaticPrivateKey::from_bytes(&b).ok().map(|k| k.as_bytes().to_vec())
    };
    match got {
        Some(g) => {
            sym::check(want, 1);
            sym::eq(&g, &v, 2);
            sym::out(&g);
            sym::reach(1);
        }
        None => {
            sym::check(!want, 3);
            sym::reach(2);
        }
    }
}

/// scalar multiples at the edges, against independent arithmetic. params: curve, lo, hi
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_ecdh_edge() {
    let c = sym::param(0);
    let (m, d) = if c == 0 { (MUL_P256, DH_P256) } else { (MUL_P384, DH_P384) };
    let i = pick(sym::param(1), sym::param(2).min(m.len()), 1);
    let (k, xy) = m[i];
    let (dk, peer, x) = d[i];
    let mut want = vec![4];
    want.extend_from_slice(xy);
    let mut pe = vec![4];
    pe.extend_from_slice(peer);
    if c == 0 {
        let sk = p256::StaticPrivateKey::from_bytes(k).unwrap();
        sym::eq(&sk.public_key_uncompressed(), &want, 1);
        let sk = p256::StaticPrivateKey::from_bytes(dk).unwrap();
        let p = p256::PublicKey::from_x962_uncompressed(&pe).unwrap();
        sym::eq(&sk.diffie_hellman(&p).unwrap().0, x, 2);
    } else {
        let sk = p384::StaticPrivateKey::from_bytes(k).unwrap();
        sym::eq(&sk.public_key_uncompressed(), &want, 1);
        let sk = p384::StaticPrivateKey::from_bytes(dk).unwrap();
        let p = p384::PublicKey::from_x962_uncompressed(&pe).unwrap();
        sym::eq(&sk.diffie_hellman(&p).unwrap().0, x, 2);
    }
    sym::reach(1);
}
