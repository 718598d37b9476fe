use crate::{refs, sym};
use graviola::hashing::hmac::Hmac;
use graviola::hashing::{Hash, HashContext, HashOutput, Sha256, Sha384, Sha512, sha2, sha3};

/// params: length, first split, second split
macro_rules! sha {
    ($n:ident, $t:ty, $ctx:ty, $r:path) => {
        #[unsafe(no_mangle)]
        #[inline(never)]
        pub extern "C" fn $n() {
            let len = sym::param(0);
            let s1 = sym::param(1);
            let s2 = sym::param(2).max(s1).min(len);
            let msg = sym::vec(len, 1);
            let want = $r(&msg);
            let mut c = <$t as Hash>::new();
            c.update(&msg[..s1]);
            // a clone continues independently of the original
            let mut d = c.clone();
            c.update(&msg[s1..s2]);
            c.update(&msg[s2..]);
            let got = c.finish();
            sym::eq(got.as_ref(), &want, 1);
            sym::out(got.as_ref());
            d.update(&msg[s1..]);
            sym::eq(d.finish().as_ref(), &want, 2);
            let got = <$t as Hash>::hash(&msg);
            sym::eq(got.as_ref(), &want, 3);
            let mut c = <$ctx>::new();
            c.update(&msg[..s2]);
            c.update(&msg[s2..]);
            sym::eq(&c.finish(), &want, 4);
        }
    };
}
sha!(h_sha256, Sha256, sha2::Sha256Context, refs::sha256);
sha!(h_sha384, Sha384, sha2::Sha384Context, refs::sha384);
sha!(h_sha512, Sha512, sha2::Sha512Context, refs::sha512);

/// params: key length, message length, split, tag length
macro_rules! hmac {
    ($n:ident, $t:ty, $r:path, $bl:expr) => {
        #[unsafe(no_mangle)]
        #[inline(never)]
        pub extern "C" fn $n() {
            let (kl, ml, sp, tl) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3));
            let key = sym::vec(kl, 1);
            let msg = sym::vec(ml, 2);
            let want = refs::hmac($r, $bl, &key, &msg);
            let mut h = Hmac::<$t>::new(&key);
            h.update(&msg[..sp]);
            let h2 = h.clone();
            h.update(&msg[sp..]);
            let h3 = h.clone();
            let got = h.finish();
            sym::eq(got.as_ref(), &want, 1);
            sym::out(got.as_ref());
            let mut h2 = h2;
            h2.update(&msg[sp..]);
            sym::eq(h2.finish().as_ref(), &want, 2);
            // verification: the tag offered differs from the right one by delta
            let delta = sym::vec(tl, 3);
            let mut tag = vec![0u8; tl];
            for i in 0..tl {
                tag[i] = delta[i] ^ want.get(i).copied().unwrap_or(0);
            }
            let right = tl == want.len() && sym::memeq(&delta, &vec![0u8; tl]);
            match h3.verify(&tag) {
                Ok(()) => {
                    sym::reach(1);
                    sym::check(right, 3);
                }
                Err(e) => {
                    sym::reach(2);
                    sym::check(!right, 4);
                    sym::check(e == graviola::Error::BadSignature, 5);
                }
            }
        }
    };
}
hmac!(h_hmac256, Sha256, refs::sha256, 64);
hmac!(h_hmac384, Sha384, refs::sha384, 128);
hmac!(h_hmac512, Sha512, refs::sha512, 128);

/// HashOutput comparison. params: variant a (0..3), variant b or length of the raw value,
/// kind (0 ==, 1 ct_equal, 2 truncated)
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_hashout() {
    fn mk(v: usize, tag: u32) -> HashOutput {
        match v {
            0 => HashOutput::Sha256(sym::arr(tag)),
            1 => HashOutput::Sha384(sym::arr(tag)),
            _ => HashOutput::Sha512(sym::arr(tag)),
        }
    }
    let (va, vb, kind) = (sym::param(0), sym::param(1), sym::param(2));
    let a = mk(va, 1);
    if kind == 0 {
        let b = mk(vb, 2);
        let want = va == vb && sym::memeq(a.as_ref(), b.as_ref());
        let r = a == b;
        sym::check(r == want, 1);
        sym::check((a != b) == !want, 5);
        sym::reach(r as u32);
    } else {
        let other = sym::vec(vb, 2);
        if kind == 1 {
            let want = sym::memeq(a.as_ref(), &other);
            let r = a.ct_equal(&other);
            sym::check(r == want, 2);
            sym::reach(r as u32);
        } else {
            macro_rules! t {
                ($l:expr, $id:expr) => {
                    let want = sym::memeq(&a.as_ref()[..$l], &other);
                    sym::check(a.truncated_ct_equal::<$l>(&other) == want, $id);
                };
            }
            t!(1, 11);
            t!(8, 12);
            t!(16, 13);
            t!(31, 14);
            t!(32, 15);
            sym::reach(1);
        }
    }
}

macro_rules! sha3h {
    ($n:ident, $t:ty, $r:expr, $ol:expr) => {
        #[unsafe(no_mangle)]
        #[inline(never)]
        pub extern "C" fn $n() {
            let len = sym::param(0);
            let s1 = sym::param(1);
            let s2 = sym::param(2).max(s1).min(len);
            let msg = sym::vec(len, 1);
            let mut want = [0u8; $ol];
            refs::keccak_hash($r, 6, &msg, &mut want);
            let mut c = <$t>::new();
            c.update(&msg[..s1]);
            let mut d = <$t>::new();
            d.update(&msg[..s2]);
            c.update(&msg[s1..s2]);
            c.update(&msg[s2..]);
            let got = c.finish();
            sym::eq(&got, &want, 1);
            sym::out(&got);
            d.update(&msg[s2..]);
            sym::eq(&d.finish(), &want, 2);
        }
    };
}
sha3h!(h_sha3_256, sha3::Sha3_256Context, 136, 32);
sha3h!(h_sha3_512, sha3::Sha3_512Context, 72, 64);

/// params: length, input split, then up to three read lengths
macro_rules! shake {
    ($n:ident, $t:ty, $r:expr) => {
        #[unsafe(no_mangle)]
        #[inline(never)]
        pub extern "C" fn $n() {
            let (len, s1) = (sym::param(0), sym::param(1));
            let msg = sym::vec(len, 1);
            let reads = [sym::param(2), sym::param(3), sym::param(4)];
            let total = reads[0] + reads[1] + reads[2];
            let mut want = vec![0u8; total];
            refs::keccak_hash($r, 0x1f, &msg, &mut want);
            let mut c = <$t>::new(&[&msg[..s1], &msg[s1..]]);
            let mut got = vec![];
            for r in reads {
                let mut v = vec![0u8; r];
                c.read(&mut v);
                got.extend_from_slice(&v);
            }
            sym::eq(&got, &want, 1);
            sym::out(&got);
        }
    };
}
shake!(h_shake128, sha3::Shake128, 168);
shake!(h_shake256, sha3::Shake256, 136);
