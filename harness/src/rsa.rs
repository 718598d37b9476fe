//! RSA: encodings around the modular exponentiation for every value of it (through the
//! hooks of cfg graviola_verif), the exponentiation itself on chosen keys.
use crate::ec::{MSG, pick, tlv};
use crate::vec_rsa::*;
use crate::{refs, rng, sym};
use graviola::signing::rsa::{SigningKey, VerifyingKey};

#[cfg(graviola_verif)]
mod hook {
    use core::cell::UnsafeCell;
    pub struct S {
        /// what the operation returns, big endian; empty: do not replace it
        pub ret: Vec<u8>,
        pub priv_ret: Vec<u8>,
        pub seen: Vec<Vec<u8>>,
    }
    pub struct C(UnsafeCell<S>);
    unsafe impl Sync for C {}
    static ST: C = C(UnsafeCell::new(S { ret: Vec::new(), priv_ret: Vec::new(), seen: Vec::new() }));
    pub fn st() -> &'static mut S {
        unsafe { &mut *ST.0.get() }
    }
    fn be(w: &[u64]) -> Vec<u8> {
        w.iter().rev().flat_map(|x| x.to_be_bytes()).collect()
    }
    fn put(v: &[u8], out: &mut [u64]) {
        let mut t = vec![0u8; 8 * out.len()];
        let k = t.len() - v.len();
        t[k..].copy_from_slice(v);
        for (i, w) in out.iter_mut().rev().enumerate() {
            *w = u64::from_be_bytes(t[8 * i..8 * i + 8].try_into().unwrap());
        }
    }
    fn public(c: &[u64], _: &[u64], out: &mut [u64]) -> bool {
        st().seen.push(be(c));
        let r = &st().ret;
        if r.is_empty() {
            return false;
        }
        put(r, out);
        true
    }
    fn private(c: &[u64], _: &[u64], out: &mut [u64]) -> bool {
        st().seen.push(be(c));
        let r = &st().priv_ret;
        if r.is_empty() {
            return false;
        }
        put(r, out);
        true
    }
    pub fn on() -> bool {
        let _ = graviola::verif::RSA_PUBLIC_OP.set(public);
        let _ = graviola::verif::RSA_PRIVATE_OP.set(private);
        true
    }
}
#[cfg(not(graviola_verif))]
mod hook {
    pub struct S {
        pub ret: Vec<u8>,
        pub priv_ret: Vec<u8>,
        pub seen: Vec<Vec<u8>>,
    }
    pub fn st() -> &'static mut S {
        Box::leak(Box::new(S { ret: vec![], priv_ret: vec![], seen: vec![] }))
    }
    pub fn on() -> bool {
        crate::sym::reach(99);
        false
    }
}

const DI: [&[u8]; 3] = [
    b"\x30\x31\x30\x0d\x06\x09\x60\x86\x48\x01\x65\x03\x04\x02\x01\x05\x00\x04\x20",
    b"\x30\x41\x30\x0d\x06\x09\x60\x86\x48\x01\x65\x03\x04\x02\x02\x05\x00\x04\x30",
    b"\x30\x51\x30\x0d\x06\x09\x60\x86\x48\x01\x65\x03\x04\x02\x03\x05\x00\x04\x40",
];
fn h(k: usize, m: &[u8]) -> Vec<u8> {
    match k {
        0 => refs::sha256(m),
        1 => refs::sha384(m),
        _ => refs::sha512(m),
    }
}
fn em_pkcs1(k: usize, m: &[u8], len: usize) -> Vec<u8> {
    let mut t = DI[k].to_vec();
    t.extend(h(k, m));
    let mut o = vec![0, 1];
    o.resize(len - t.len() - 1, 0xff);
    o.push(0);
    o.extend(t);
    o
}
fn mgf(k: usize, seed: &[u8], n: usize) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0u32;
    while o.len() < n {
        let mut s = seed.to_vec();
        s.extend(i.to_be_bytes());
        o.extend(h(k, &s));
        i += 1;
    }
    o.truncate(n);
    o
}
/// EMSA-PSS with any DB and any difference on H
fn em_pss(k: usize, m: &[u8], bits: usize, db: &[u8], delta: &[u8], bc: u8) -> Vec<u8> {
    let hl = delta.len();
    let mut mp = vec![0; 8];
    mp.extend(h(k, m));
    mp.extend_from_slice(&db[db.len() - hl..]);
    let mut hh = h(k, &mp);
    for (a, b) in hh.iter_mut().zip(delta) {
        *a ^= b;
    }
    let mut o: Vec<u8> = db.iter().zip(mgf(k, &hh, db.len())).map(|(a, b)| a ^ b).collect();
    let eb = bits - 1;
    o[0] &= 0xff >> (8 * eb.div_ceil(8) - eb);
    o.extend(hh);
    o.push(bc);
    o
}

fn verify(k: &VerifyingKey, hash: usize, pss: bool, sig: &[u8], m: &[u8]) -> bool {
    match (hash, pss) {
        (0, false) => k.verify_pkcs1_sha256(sig, m),
        (1, false) => k.verify_pkcs1_sha384(sig, m),
        (2, false) => k.verify_pkcs1_sha512(sig, m),
        (0, true) => k.verify_pss_sha256(sig, m),
        (1, true) => k.verify_pss_sha384(sig, m),
        _ => k.verify_pss_sha512(sig, m),
    }
    .is_ok()
}
fn sign<'a>(k: &SigningKey, hash: usize, pss: bool, out: &'a mut [u8], m: &[u8]) -> Option<&'a [u8]> {
    match (hash, pss) {
        (0, false) => k.sign_pkcs1_sha256(out, m),
        (1, false) => k.sign_pkcs1_sha384(out, m),
        (2, false) => k.sign_pkcs1_sha512(out, m),
        (0, true) => k.sign_pss_sha256(out, m),
        (1, true) => k.sign_pss_sha384(out, m),
        _ => k.sign_pss_sha512(out, m),
    }
    .ok()
}

/// a message of length n: any bytes, or with n >= 1000 fixed ones
fn message(n: usize) -> Vec<u8> {
    if n < 1000 { sym::vec(n, 1) } else { (0..n - 1000).map(|i| (i * 7 + 1) as u8).collect() }
}

/// PKCS#1 v1.5 verification accepts exactly one encoded message. params: key, hash, message length
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_rsa_pkcs1() {
    let (key, hash) = (&KEYS[sym::param(0)], sym::param(1));
    let msg = message(sym::param(2));
    if !hook::on() {
        return;
    }
    let len = key.n.len();
    let vk = VerifyingKey::from_pkcs1_der(key.pub_der).unwrap();
    let mut em = sym::vec(len, 2);
    // what the public operation can return is below n
    sym::assume(em[0] < key.n[0]);
    let want = em_pkcs1(hash, &msg, len);
    // also around the right encoding: differences in one place
    let at = sym::param(3);
    if at > 0 {
        let w = sym::param(4).min(len - at);
        let keep = em.clone();
        em.copy_from_slice(&want);
        em[at..at + w].copy_from_slice(&keep[at..at + w]);
    }
    hook::st().ret = em.clone();
    let mut sig = vec![7; len];
    sig[0] = 0;
    let got = verify(&vk, hash, false, &sig, &msg);
    let w = sym::memeq(&em, &want);
    sym::check(got == w, 1);
    sym::reach(if got { 1 } else { 2 });
}

/// PSS verification accepts exactly the encodings of RFC 8017. params: key, hash, message length, parts (1 DB, 2 H, 4 trailer, 8 leading bits, 16 salt)
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_rsa_pss() {
    let (key, hash, parts) = (&KEYS[sym::param(0)], sym::param(1), sym::param(3));
    let mut msg = message(sym::param(2));
    if !hook::on() {
        return;
    }
    let hl = [32, 48, 64][hash];
    let eb = key.bits - 1;
    let el = eb.div_ceil(8);
    let vk = VerifyingKey::from_pkcs1_der(key.pub_der).unwrap();
    let sep = el - 2 * hl - 2;
    let mut db = vec![0; el - hl - 1];
    db[sep] = 1;
    for (i, x) in db[sep + 1..].iter_mut().enumerate() {
        *x = (i * 3 + 1) as u8;
    }
    if parts & 1 != 0 {
        sym::bytes(&mut db[..sep + 1], 2);
    }
    if parts & 16 != 0 {
        sym::bytes(&mut db[sep + 1..], 6);
    }
    let mut delta = vec![0; hl];
    if parts & 2 != 0 {
        sym::bytes(&mut delta, 3);
    }
    let bc = if parts & 4 != 0 { sym::u8(4) } else { 0xbc };
    let top = (0xffu32 >> (8 * el - eb)) as u8;
    let top = top ^ top >> 1;
    if parts == 2 {
        while em_pss(hash, &msg, key.bits, &db, &vec![0; hl], bc)[0] & top == 0 {
            msg[0] = msg[0].wrapping_add(1);
        }
    }
    let mut em = em_pss(hash, &msg, key.bits, &db, &delta, bc);
    if parts & 18 != 0 || sym::param(2) < 1000 {
        // so that the bit length of the encoding is settled
        sym::assume(em[0] & top != 0);
    }
    let mut lead = 0u8;
    if parts & 8 != 0 {
        lead = sym::u8(5) & !((0xffu32 >> (8 * el - eb)) as u8);
        em[0] |= lead;
    }
    // the bits of DB that the mask clears do not count
    db[0] &= 0xff >> (8 * el - eb);
    let mut want_db = vec![0; sep];
    want_db.push(1);
    let want = sym::memeq(&db[..sep + 1], &want_db) & sym::memeq(&delta, &vec![0; hl]) & (bc == 0xbc) & (lead == 0);
    let len = key.n.len();
    let mut full = vec![0; len - el];
    full.extend_from_slice(&em);
    hook::st().ret = full;
    let mut sig = vec![7; len];
    sig[0] = 0;
    let got = verify(&vk, hash, true, &sig, &msg);
    sym::check(got == want, 1);
    sym::reach(if got { 1 } else { 2 });
}

/// signatures of a wrong length, or not below n, are rejected whatever they are. params: key, pss, length
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_rsa_siglen() {
    let (key, pss, n) = (&KEYS[sym::param(0)], sym::param(1) != 0, sym::param(2));
    if !hook::on() {
        return;
    }
    let vk = VerifyingKey::from_pkcs1_der(key.pub_der).unwrap();
    let len = key.n.len();
    let hl = 32;
    let el = (key.bits - 1).div_ceil(8);
    let em = if pss {
        let mut db = vec![0; el - hl - 1];
        db[el - 2 * hl - 2] = 1;
        em_pss(0, MSG, key.bits, &db, &vec![0; hl], 0xbc)
    } else {
        em_pkcs1(0, MSG, len)
    };
    hook::st().ret = em;
    // any bytes; the leading ones as a parser that skips zeros would like them
    let mut sig = sym::vec(n, 1);
    let z = sym::param(3).min(n);
    sig[..z].fill(0);
    if n > z {
        sym::assume(sig[z] != 0);
    }
    let below = if n == len { crate::ec::lt(&sig, key.n) } else { false };
    let got = verify(&vk, 0, pss, &sig, MSG);
    sym::check(got == below, 1);
    sym::reach(if got { 1 } else { 2 });
}

/// true signatures and their variations, with the real exponentiation. params: key, lo, hi
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_rsa_vec() {
    let ki = sym::param(0);
    let key = &KEYS[ki];
    let vk = VerifyingKey::from_pkcs1_der(key.pub_der).unwrap();
    let i = pick(sym::param(1), sym::param(2), 1);
    let s = &SIGS[ki][i];
    let pss = !s.salt.is_empty();
    match pick(0, 7, 2) {
        0 => sym::check(verify(&vk, s.h, pss, s.sig, MSG), 1),
        1 => {
            // s + n is the same modulo n
            let mut t = vec![0u8; key.n.len() + 1];
            let mut c = 0u32;
            for j in (0..key.n.len()).rev() {
                c += s.sig[j] as u32 + key.n[j] as u32;
                t[j + 1] = c as u8;
                c >>= 8;
            }
            t[0] = c as u8;
            sym::check(!verify(&vk, s.h, pss, &t, MSG), 2);
            sym::check(!verify(&vk, s.h, pss, &t[1..], MSG), 3);
        }
        2 => {
            let mut t = vec![0];
            t.extend_from_slice(s.sig);
            sym::check(!verify(&vk, s.h, pss, &t, MSG), 4);
        }
        3 => sym::check(!verify(&vk, s.h, pss, s.sig, b"message to be signee"), 5),
        4 => {
            sym::check(!verify(&vk, s.h, !pss, s.sig, MSG), 6);
            sym::check(!verify(&vk, (s.h + 1) % 3, pss, s.sig, MSG), 7);
        }
        5 => {
            // n - s
            let mut t = vec![0u8; key.n.len()];
            let mut bo = 0i32;
            for j in (0..t.len()).rev() {
                let d = key.n[j] as i32 - s.sig[j] as i32 - bo;
                bo = (d < 0) as i32;
                t[j] = d as u8;
            }
            sym::check(!verify(&vk, s.h, pss, &t, MSG), 8);
            sym::check(!verify(&vk, s.h, pss, &vec![0; t.len()], MSG), 9);
            t.fill(0);
            *t.last_mut().unwrap() = 1;
            sym::check(!verify(&vk, s.h, pss, &t, MSG), 10);
            sym::check(!verify(&vk, s.h, pss, key.n, MSG), 11);
        }
        _ => {
            let mut t = s.sig.to_vec();
            let at = pick(0, 24, 3) * (t.len() - 1) / 23;
            t[at] ^= if pick(0, 2, 4) == 0 { 1 } else { 0x80 };
            sym::check(!verify(&vk, s.h, pss, &t, MSG), 12);
        }
    }
    sym::reach(1);
}

/// what is signed is the encoded message, and what comes out is the result at the modulus length.
/// params: key, hash, pss, message length, output length minus modulus length plus 1
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_rsa_sign_em() {
    let (key, hash, pss) = (&KEYS[sym::param(0)], sym::param(1), sym::param(2) != 0);
    let msg = message(sym::param(3));
    if !hook::on() {
        return;
    }
    let len = key.n.len();
    let ol = len + sym::param(4) - 1;
    let sk = SigningKey::from_pkcs1_der(key.priv_der).unwrap();
    sym::check(sk.modulus_len_bytes() == len, 1);
    let ret = sym::vec(len, 2);
    sym::assume(ret[0] < key.n[0]);
    hook::st().priv_ret = ret.clone();
    hook::st().seen.clear();
    rng::state().keep = true;
    let hl = [32, 48, 64][hash];
    let want = if pss {
        let el = (key.bits - 1).div_ceil(8);
        let salt = sym::vec(hl, 3);
        let mut db = vec![0; el - hl - 1];
        db[el - 2 * hl - 2] = 1;
        db[el - 2 * hl - 1..].copy_from_slice(&salt);
        rng::state().fixed = Some(salt);
        let em = em_pss(hash, &msg, key.bits, &db, &vec![0; hl], 0xbc);
        sym::assume(em[0] != 0);
        em
    } else {
        em_pkcs1(hash, &msg, len)
    };
    let mut out = vec![0x55; ol];
    let got = sign(&sk, hash, pss, &mut out, &msg).map(|s| s.to_vec());
    if ol < len {
        sym::check(got.is_none(), 2);
        sym::eq(&out, &vec![0x55; ol], 3);
        sym::reach(2);
        return;
    }
    sym::check(got.is_some(), 4);
    let got = got.unwrap();
    sym::check(got.len() == len, 5);
    sym::eq(&got, &ret, 6);
    sym::eq(&out[..len], &ret, 7);
    sym::eq(&out[len..], &vec![0x55; ol - len], 8);
    let seen = &hook::st().seen;
    sym::check(seen.len() == 1, 9);
    if pss {
        let log = &rng::state().log;
        sym::check(log.len() == 1 && log[0].len() == hl, 10);
    } else {
        sym::check(rng::calls() == 0, 11);
    }
    let mut s = vec![0; len.div_ceil(8) * 8];
    let k = s.len() - seen[0].len();
    s[k..].copy_from_slice(&seen[0]);
    let mut w = vec![0; s.len() - want.len()];
    w.extend(want);
    sym::eq(&s, &w, 12);
    sym::reach(1);
}

/// a result that does not verify is never released. params: key, hash, pss
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_rsa_sign_fault() {
    let (key, hash, pss) = (&KEYS[sym::param(0)], sym::param(1), sym::param(2) != 0);
    if !hook::on() {
        return;
    }
    let len = key.n.len();
    let sk = SigningKey::from_pkcs1_der(key.priv_der).unwrap();
    // what verification finds, by whatever fault
    let ret = sym::vec(len, 2);
    sym::assume(ret[0] < key.n[0]);
    hook::st().ret = ret.clone();
    hook::st().seen.clear();
    rng::state().fixed = Some(b"some fixed salt".to_vec());
    let mut out = vec![0x55; len];
    let got = sign(&sk, hash, pss, &mut out, MSG).is_some();
    let seen = &hook::st().seen;
    // first the private operation (on the encoding), then its check
    sym::check(seen.len() == 2, 1);
    let s = &seen[0];
    let w = s.len().max(len);
    let wide = |x: &[u8]| {
        let mut r = vec![0; w - x.len()];
        r.extend_from_slice(x);
        r
    };
    let same = sym::memeq(&wide(&ret), &wide(s));
    sym::check(got == same, 2);
    if !got {
        sym::eq(&out, &vec![0x55; len], 3);
    }
    sym::reach(if got { 1 } else { 2 });
}

/// signatures are the right ones, with the real exponentiation. params: key, lo, hi
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_rsa_sign_vec() {
    let ki = sym::param(0);
    let key = &KEYS[ki];
    let sk = SigningKey::from_pkcs1_der(key.priv_der).unwrap();
    let s = &SIGS[ki][pick(sym::param(1), sym::param(2), 1)];
    let pss = !s.salt.is_empty();
    if pss {
        rng::state().fixed = Some(s.salt.to_vec());
    }
    let mut out = vec![0; key.n.len() + 3];
    match sign(&sk, s.h, pss, &mut out, MSG) {
        Some(g) => sym::eq(g, s.sig, 1),
        None => sym::check(false, 2),
    }
    sym::reach(1);
}

fn int(b: &[u8]) -> Vec<u8> {
    crate::ec::der_int(b)
}
/// private keys with damaged components: refused, or never a wrong signature. params: key, lo, hi
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_rsa_badkey() {
    let key = &KEYS[sym::param(0)];
    let e = key.e.to_be_bytes();
    let mut parts: Vec<Vec<u8>> =
        [key.n, &e[..], key.d, key.p, key.q, key.dp, key.dq, key.iq].iter().map(|x| x.to_vec()).collect();
    let which = pick(sym::param(1), sym::param(2), 1);
    let comp = [3, 4, 5, 6, 7, 0][which];
    let full = parts[comp].len();
    match pick(0, 9, 2) {
        0 => parts[comp] = vec![0],
        1 => parts[comp] = vec![1],
        2 => parts[comp] = vec![3],
        3 => parts[comp][full - 1] ^= 2,
        4 => parts[comp][1] ^= 0x40,
        5 => parts[comp] = vec![0xff; full],
        6 => parts[comp] = vec![0xff; 512],
        7 => parts[comp].truncate(full / 2 + 1),
        _ => parts[comp].truncate(8),
    }
    let mut body = int(&[]);
    for p in &parts {
        body.extend(int(p));
    }
    let der = tlv(0x30, &body);
    if let Ok(sk) = SigningKey::from_pkcs1_der(&der) {
        let mut out = vec![0; 1024];
        if let Some(s) = sign(&sk, 0, false, &mut out, MSG) {
            // only a right signature under the right modulus can come out
            sym::eq(s, SIGS[sym::param(0)][0].sig, 1);
            sym::reach(2);
        }
        sym::reach(1);
    }
    sym::reach(3);
}
