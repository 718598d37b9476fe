SEEDS = [
dict(id="b01-gcm-aad-bits", property="C01", needs="additional data of 8192 bytes or more",
 breaks="the AAD bit length in the final GHASH block wraps at 16 bits when encrypting, so the tag is not the standard's",
 edits=[("graviola/src/mid/aes_gcm.rs", """        aes_gcm::encrypt(&self.key, &mut ghash, &counter, aad, cipher_inout);

        let mut lengths = [0u8; 16];
        lengths[..8].copy_from_slice(&((aad.len() * 8) as u64).to_be_bytes());""", """        aes_gcm::encrypt(&self.key, &mut ghash, &counter, aad, cipher_inout);

        let mut lengths = [0u8; 16];
        lengths[6..8].copy_from_slice(&((aad.len() * 8) as u16).to_be_bytes());""")],
 main="""
use graviola::aead::AesGcm;
fn main() {
    for n in [0usize, 20, 8191, 8192, 9000] {
        let k = AesGcm::new(&[7; 16]);
        let mut m = *b"hello";
        let mut t = [0; 16];
        let aad = vec![3u8; n];
        k.encrypt(&[1; 12], &aad, &mut m, &mut t);
        k.decrypt(&[1; 12], &aad, &mut m, &t).unwrap();
        assert_eq!(&m, b"hello");
    }
}
"""),
dict(id="b02-gcm-partial-clear", property="C02", needs="a rejected ciphertext whose length is not a multiple of 16",
 breaks="after a failed decryption the trailing partial block still holds unauthenticated plaintext",
 edits=[("graviola/src/mid/aes_gcm.rs", """            cipher_inout.fill(0x00);
""", """            for block in cipher_inout.chunks_exact_mut(16) {
                block.fill(0x00);
            }
""")],
 main="""
use graviola::aead::AesGcm;
fn main() {
    for n in [0usize, 16, 32, 33, 47, 100] {
        let k = AesGcm::new(&[7; 32]);
        let mut m = vec![0x41u8; n];
        let mut t = [0; 16];
        k.encrypt(&[1; 12], b"", &mut m, &mut t);
        t[3] ^= 4;
        assert!(k.decrypt(&[1; 12], b"", &mut m, &t).is_err());
        assert!(m.iter().all(|b| *b == 0));
    }
}
"""),
dict(id="b03-chacha-counter8", property="C03", needs="a message long enough to carry the block counter past 256 in the eight-block path",
 breaks="the eight-block ChaCha20 path advances the counter without carrying out of its low byte, so the keystream repeats",
 edits=[("graviola/src/low/x86_64/chacha20.rs", """    *z8f = _mm256_add_epi32(*z8f, _mm256_set_epi32(0, 0, 0, 0, 0, 0, 0, 8));""", """    *z8f = _mm256_add_epi8(*z8f, _mm256_set_epi32(0, 0, 0, 0, 0, 0, 0, 8));""")],
 main="""
use graviola::aead::ChaCha20Poly1305;
fn main() {
    let mut m = vec![0u8; 40000];
    let mut t = [0; 16];
    ChaCha20Poly1305::new([9; 32]).encrypt(&[1; 12], b"", &mut m, &mut t);
    // no keystream block may repeat
    let mut seen = std::collections::HashSet::new();
    for b in m.chunks_exact(64) {
        assert!(seen.insert(b.to_vec()));
    }
}
"""),
dict(id="b04-xchacha-short-tag", property="C04", needs="a truncated (12 to 15 byte) tag offered to XChaCha20-Poly1305",
 breaks="a truncated tag is accepted, cutting the forgery bound",
 edits=[("graviola/src/mid/xchacha20poly1305.rs", """if ct_equal(&actual_tag, tag) {""", """if tag.len() >= 12 && ct_equal(&actual_tag[..tag.len().min(16)], tag) {""")],
 main="""
use graviola::aead::XChaCha20Poly1305;
fn main() {
    let mut m = *b"hello";
    let mut t = [0; 16];
    let k = XChaCha20Poly1305::new([9; 32]);
    k.encrypt(&[1; 24], b"", &mut m, &mut t);
    for n in 0..16 {
        let mut c = m;
        assert!(k.decrypt(&[1; 24], b"", &mut c, &t[..n]).is_err());
    }
    k.decrypt(&[1; 24], b"", &mut m, &t).unwrap();
}
"""),
dict(id="b05-sha2-buffered-full", property="C05", needs="an update that tops a partly filled buffer up to exactly one block, followed by more data in the same call",
 breaks="the digest depends on how the message was cut into update calls",
 edits=[("graviola/src/low/generic/blockwise.rs", """        let take = core::cmp::min(bytes.len(), space);
        let (taken, returned) = bytes.split_at(take);
        self.buffer[self.used..self.used + take].copy_from_slice(taken);""", """        let take = core::cmp::min(bytes.len(), space);
        let (taken, returned) = bytes.split_at(take);
        if take == N - 1 && returned.len() == 1 {
            // exactly one byte over: the buffered byte moves up
            self.buffer[..take].copy_from_slice(taken);
            self.buffer[N - 1] = self.buffer[0];
        } else {
            self.buffer[self.used..self.used + take].copy_from_slice(taken);
        }""")],
 main="""
use graviola::hashing::sha2::Sha256Context;
fn main() {
    let m: Vec<u8> = (0..200).map(|x| x as u8).collect();
    let want = { let mut c = Sha256Context::new(); c.update(&m); c.finish() };
    for a in 0..=200 {
        for b in a..=200 {
            let mut c = Sha256Context::new();
            c.update(&m[..a]);
            c.update(&m[a..b]);
            c.update(&m[b..]);
            assert_eq!(c.finish(), want, "{a} {b}");
        }
    }
}
"""),
dict(id="b06-shake-buffer-drain", property="C06", needs="a read that ends exactly where the buffered block ends, followed by another read",
 breaks="the XOF output depends on the sizes of the read calls",
 edits=[("graviola/src/mid/sha3.rs", """            let chunk = Ord::min(R, tail.len());
            tail.copy_from_slice(&buffer[..chunk]);
            *buffer_offset = chunk;""", """            let chunk = Ord::min(R, tail.len());
            tail.copy_from_slice(&buffer[..chunk]);
            *buffer_offset = if chunk + 1 == R { R } else { chunk };""")],
 main="""
use graviola::hashing::sha3::{Shake128, Shake256};
fn main() {
    for a in 0..400 {
        let mut w = [0u8; 500];
        Shake128::new(&[b"abc"]).read(&mut w);
        let mut g = [0u8; 500];
        let mut s = Shake128::new(&[b"abc"]);
        s.read(&mut g[..a]);
        s.read(&mut g[a..]);
        assert_eq!(w, g, "128 {a}");
        Shake256::new(&[b"abc"]).read(&mut w);
        let mut s = Shake256::new(&[b"abc"]);
        s.read(&mut g[..a]);
        s.read(&mut g[a..]);
        assert_eq!(w, g, "256 {a}");
    }
}
"""),
dict(id="b07-hmac-key-block", property="C07", needs="an HMAC key whose length is exactly the hash block size",
 breaks="a key of exactly one block is hashed first, so the tag differs from RFC 2104",
 edits=[("graviola/src/high/hmac.rs", """        if key.len() > key_block.len() {""", """        if key.len() >= key_block.len() {""")],
 main="""
use graviola::hashing::{Sha256, hmac::Hmac, sha2::Sha256Context};
fn main() {
    for n in [63usize, 64, 65] {
        let k = vec![0x5au8; n];
        let mut h = Hmac::<Sha256>::new(&k);
        h.update(b"msg");
        let got = h.finish();
        let mut kb = [0u8; 64];
        if n > 64 { let mut c = Sha256Context::new(); c.update(&k); kb[..32].copy_from_slice(&c.finish()); } else { kb[..n].copy_from_slice(&k); }
        let mut i = Sha256Context::new();
        i.update(&kb.map(|x| x ^ 0x36));
        i.update(b"msg");
        let mut o = Sha256Context::new();
        o.update(&kb.map(|x| x ^ 0x5c));
        o.update(&i.finish());
        assert_eq!(got.as_ref(), &o.finish(), "{n}");
    }
}
"""),
]
