use crate::{refs, sym};
use graviola::Error;
use graviola::aead::*;

fn key_for(kl: usize, which: usize) -> Vec<u8> {
    (0..kl).map(|i| match which {
        0 => (i * 17 + 3) as u8,
        1 => 0,
        2 => 0xff,
        _ => (i * i * 7 + which * 29 + 1) as u8,
    }).collect()
}

fn zero(b: &[u8]) -> bool {
    sym::memeq(b, &vec![0u8; b.len()])
}

/// long = 1: the middle is concrete, both ends are symbolic; 2: only the end is symbolic
fn window(n: usize, tag: u32, long: usize) -> Vec<u8> {
    if long == 0 || (n < 80 && (long == 1 || tag == 4)) {
        return sym::vec(n, tag);
    }
    let mut v: Vec<u8> = (0..n).map(|i| (i * 7 + (i >> 8) * 3 + tag as usize) as u8).collect();
    if n < 80 {
        return v; // short additional data before a long message: concrete too
    }
    if long == 1 {
        sym::bytes(&mut v[..16], tag);
    }
    sym::bytes(&mut v[n - 40..], tag);
    v
}

/// params: key length, aad length, message length, which concrete key, long
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_gcm_enc() {
    let (kl, al, ml, wk) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3));
    let long = sym::param(4);
    let key = key_for(kl, wk);
    let nonce = if long != 0 { [0xf7; 12] } else { sym::arr::<12>(2) };
    let aad = window(al, 3, long);
    let mut msg = window(ml, 4, long);
    let want = refs::gcm(&key, &nonce, &aad, &msg);
    let mut tag = [0u8; 16];
    AesGcm::new(&key).encrypt(&nonce, &aad, &mut msg, &mut tag);
    sym::out(&msg);
    sym::out(&tag);
    sym::eq(&msg, &want.0, 1);
    sym::eq(&tag, &want.1, 2);
}

/// The tag offered is the right one XOR delta. `tl`: its length.
fn offer(want: &[u8; 16], tl: usize) -> (Vec<u8>, bool) {
    let delta = sym::vec(tl, 5);
    let tag: Vec<u8> = (0..tl).map(|i| delta[i] ^ want.get(i).copied().unwrap_or(0)).collect();
    let right = tl == 16 && zero(&delta);
    (tag, right)
}

fn verdict(r: Result<(), Error>, right: bool, out: &[u8], pt: &[u8]) {
    match r {
        Ok(()) => {
            sym::reach(1);
            sym::check(right, 1);
            sym::eq(out, pt, 2);
            sym::out(out);
        }
        Err(e) => {
            sym::reach(2);
            sym::check(!right, 3);
            sym::check(e == Error::DecryptFailed, 4);
            sym::check(zero(out), 5);
            sym::out(out);
        }
    }
}

/// params: key length, aad length, message length, which key, tag length
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_gcm_dec() {
    let (kl, al, ml, wk, tl) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3), sym::param(4));
    let long = sym::param(5);
    let key = key_for(kl, wk);
    let nonce = if long != 0 { [0xf7; 12] } else { sym::arr::<12>(2) };
    let aad = window(al, 3, long);
    let mut ct = window(ml, 4, long);
    let aes = refs::Aes::new(&key);
    let pt = refs::gcm_ctr(&aes, &nonce, &ct);
    // the right tag is the one encryption makes (conformance of that is C01's)
    let mut want = [0u8; 16];
    let mut ct2 = pt.clone();
    AesGcm::new(&key).encrypt(&nonce, &aad, &mut ct2, &mut want);
    sym::eq(&ct2, &ct, 6);
    let (tag, right) = offer(&want, tl);
    let r = AesGcm::new(&key).decrypt(&nonce, &aad, &mut ct, &tag);
    verdict(r, right, &ct, &pt);
}

/// params: aad length, message length, 1: XChaCha
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_chacha_enc() {
    let (al, ml, x) = (sym::param(0), sym::param(1), sym::param(2));
    let long = sym::param(3);
    let key = if long != 0 { [0x3e; 32] } else { sym::arr::<32>(1) };
    let mut tag = [0u8; 16];
    if x != 0 {
        let nonce = if long != 0 { [0xa7; 24] } else { sym::arr::<24>(2) };
        let aad = window(al, 3, long);
        let mut msg = window(ml, 4, long);
        let (k, n) = refs::xchacha_derive(&key, &nonce);
        let want = refs::chacha20poly1305(&k, &n, &aad, &msg);
        XChaCha20Poly1305::new(key).encrypt(&nonce, &aad, &mut msg, &mut tag);
        sym::out(&msg);
        sym::out(&tag);
        sym::eq(&msg, &want.0, 1);
        sym::eq(&tag, &want.1, 2);
        return;
    }
    let nonce = if long != 0 { [0xa7; 12] } else { sym::arr::<12>(2) };
    let aad = window(al, 3, long);
    let mut msg = window(ml, 4, long);
    let want = refs::chacha20poly1305(&key, &nonce, &aad, &msg);
    ChaCha20Poly1305::new(key).encrypt(&nonce, &aad, &mut msg, &mut tag);
    sym::out(&msg);
    sym::out(&tag);
    sym::eq(&msg, &want.0, 1);
    sym::eq(&tag, &want.1, 2);
}

/// params: aad length, message length, 1: XChaCha, tag length, 1: concrete key and nonce
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_chacha_dec() {
    let (al, ml, x, tl) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3));
    let long = sym::param(4);
    let key = if long != 0 { [0x3e; 32] } else { sym::arr::<32>(1) };
    let n24 = if long != 0 { [0xa7; 24] } else { sym::arr::<24>(2) };
    let n12: [u8; 12] = n24[..12].try_into().unwrap();
    let aad = window(al, 3, long);
    let mut ct = window(ml, 4, long);
    let (k, n) = if x != 0 { refs::xchacha_derive(&key, &n24) } else { (key, n12) };
    let pt = refs::chacha_xor(&k, &n, &ct);
    let mut want = [0u8; 16];
    let mut ct2 = pt.clone();
    if x != 0 {
        XChaCha20Poly1305::new(key).encrypt(&n24, &aad, &mut ct2, &mut want)
    } else {
        ChaCha20Poly1305::new(key).encrypt(&n12, &aad, &mut ct2, &mut want)
    };
    sym::eq(&ct2, &ct, 6);
    let (tag, right) = offer(&want, tl);
    let r = if x != 0 {
        XChaCha20Poly1305::new(key).decrypt(&n24, &aad, &mut ct, &tag)
    } else {
        ChaCha20Poly1305::new(key).decrypt(&n12, &aad, &mut ct, &tag)
    };
    verdict(r, right, &ct, &pt);
}
