//! Reference specifications, written from the standards (FIPS 180-4, FIPS 197,
//! SP 800-38D, RFC 8439, draft-irtf-cfrg-xchacha, FIPS 202, RFC 2104, ...).
//! They are executed by the same engine as the code under test; none of them uses graviola.

const fn isprime(n: u64) -> bool {
    let mut d = 2;
    while d * d <= n {
        if n % d == 0 {
            return false;
        }
        d += 1;
    }
    true
}

const fn primes() -> [u64; 80] {
    let mut r = [0; 80];
    let (mut n, mut i) = (2, 0);
    while i < 80 {
        if isprime(n) {
            r[i] = n;
            i += 1;
        }
        n += 1;
    }
    r
}

/// floor(frac(p^(1/3)) * 2^64): the largest x with x^3 <= p * 2^192, low 64 bits.
const fn cbrt_frac(p: u64) -> u64 {
    // integer part k, then binary fraction bits; x = k.2^64 + f, compare x^3 with p.2^192 in 256+ bits
    let mut x: u128 = 0; // < 2^67
    let mut bit = 67;
    while bit > 0 {
        bit -= 1;
        let t = x | (1u128 << bit);
        if cube_le(t, p) {
            x = t;
        }
    }
    x as u64
}
const fn cube_le(t: u128, p: u64) -> bool {
    // limbs base 2^32: t has 3 limbs (t < 2^68), t^3 has 9
    let a = [(t & 0xffff_ffff) as u64, ((t >> 32) & 0xffff_ffff) as u64, (t >> 64) as u64];
    let mut sq = [0u64; 6];
    let mut i = 0;
    while i < 3 {
        let mut c = 0u64;
        let mut j = 0;
        while j < 3 {
            let v = a[i] * a[j] + sq[i + j] + c;
            sq[i + j] = v & 0xffff_ffff;
            c = v >> 32;
            j += 1;
        }
        sq[i + 3] += c;
        i += 1;
    }
    let mut cu = [0u64; 10];
    i = 0;
    while i < 6 {
        let mut c = 0u64;
        let mut j = 0;
        while j < 3 {
            let v = sq[i] * a[j] + cu[i + j] + c;
            cu[i + j] = v & 0xffff_ffff;
            c = v >> 32;
            j += 1;
        }
        cu[i + 3] += c;
        i += 1;
    }
    // p.2^192: limb 6 = p, others 0
    let hi = cu[6] | (cu[7] << 32);
    if cu[8] != 0 || cu[9] != 0 || hi > p {
        return false;
    }
    if hi < p {
        return true;
    }
    (cu[0] | cu[1] | cu[2] | cu[3] | cu[4] | cu[5]) == 0
}
const K512: [u64; 80] = {
    let p = primes();
    let mut k = [0; 80];
    let mut i = 0;
    while i < 80 {
        k[i] = cbrt_frac(p[i]);
        i += 1;
    }
    k
};

pub const H256: [u32; 8] = [
    0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
];
const H512: [u64; 8] = [
    0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
    0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];
const H384: [u64; 8] = [
    0xcbbb9d5dc1059ed8, 0x629a292a367cd507, 0x9159015a3070dd17, 0x152fecd8f70e5939,
    0x67332667ffc00b31, 0x8eb44a8768581511, 0xdb0c2e0d64f98fa7, 0x47b5481dbefa4fa4,
];

macro_rules! sha2 {
    ($name:ident, $w:ty, $bytes:expr, $rounds:expr, $k:expr, $S0:expr, $S1:expr, $s0:expr, $s1:expr) => {
        #[inline(never)]
        pub fn $name(h0: &[$w; 8], msg: &[u8], outlen: usize) -> Vec<u8> {
            const B: usize = $bytes * 16;
            let mut m = msg.to_vec();
            m.push(0x80);
            while m.len() % B != B - 2 * $bytes {
                m.push(0);
            }
            if $bytes == 8 {
                m.extend_from_slice(&[0; 8]);
            }
            m.extend_from_slice(&((msg.len() as u64) * 8).to_be_bytes());
            let mut h = *h0;
            for blk in m.chunks(B) {
                let mut w = [0 as $w; $rounds];
                for t in 0..16 {
                    let mut v: $w = 0;
                    for j in 0..$bytes {
                        v = (v << 8) | (blk[t * $bytes + j] as $w);
                    }
                    w[t] = v;
                }
                for t in 16..$rounds {
                    let s = |x: $w, r: [u32; 3]| x.rotate_right(r[0]) ^ x.rotate_right(r[1]) ^ (x >> r[2]);
                    w[t] = s(w[t - 2], $s1)
                        .wrapping_add(w[t - 7])
                        .wrapping_add(s(w[t - 15], $s0))
                        .wrapping_add(w[t - 16]);
                }
                let [mut a, mut b, mut c, mut d, mut e, mut f, mut g, mut hh] = h;
                let s = |x: $w, r: [u32; 3]| x.rotate_right(r[0]) ^ x.rotate_right(r[1]) ^ x.rotate_right(r[2]);
                for t in 0..$rounds {
                    let t1 = hh
                        .wrapping_add(s(e, $S1))
                        .wrapping_add((e & f) ^ (!e & g))
                        .wrapping_add($k(t))
                        .wrapping_add(w[t]);
                    let t2 = s(a, $S0).wrapping_add((a & b) ^ (a & c) ^ (b & c));
                    hh = g;
                    g = f;
                    f = e;
                    e = d.wrapping_add(t1);
                    d = c;
                    c = b;
                    b = a;
                    a = t1.wrapping_add(t2);
                }
                let v = [a, b, c, d, e, f, g, hh];
                for i in 0..8 {
                    h[i] = h[i].wrapping_add(v[i]);
                }
            }
            let mut out = vec![];
            for x in h {
                out.extend_from_slice(&x.to_be_bytes());
            }
            out.truncate(outlen);
            out
        }
    };
}
sha2!(sha2_32, u32, 4, 64, |t: usize| (K512[t] >> 32) as u32, [2, 13, 22], [6, 11, 25], [7, 18, 3], [17, 19, 10]);
sha2!(sha2_64, u64, 8, 80, |t: usize| K512[t], [28, 34, 39], [14, 18, 41], [1, 8, 7], [19, 61, 6]);

pub fn sha256(m: &[u8]) -> Vec<u8> {
    sha2_32(&H256, m, 32)
}
pub fn sha384(m: &[u8]) -> Vec<u8> {
    sha2_64(&H384, m, 48)
}
pub fn sha512(m: &[u8]) -> Vec<u8> {
    sha2_64(&H512, m, 64)
}

// ---- AES (FIPS 197)

const fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        let hi = a >> 7;
        a <<= 1;
        if hi == 1 {
            a ^= 0x1b;
        }
        b >>= 1;
    }
    r
}
pub const SBOX: [u8; 256] = {
    let mut s = [0u8; 256];
    let mut i = 0;
    while i < 256 {
        // inverse = i^254
        let x = i as u8;
        let mut r = 1u8;
        let mut n = 0;
        while n < 254 {
            r = gmul(r, x);
            n += 1;
        }
        s[i] = r ^ r.rotate_left(1) ^ r.rotate_left(2) ^ r.rotate_left(3) ^ r.rotate_left(4) ^ 0x63;
        i += 1;
    }
    s
};

/// intercepted by the engine (the S-box is one of its operators)
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn sym_hook_sbox(x: u8) -> u8 {
    SBOX[x as usize]
}

fn xtime(x: u8) -> u8 {
    (x << 1) ^ ((x >> 7).wrapping_mul(0x1b))
}

pub struct Aes(Vec<[u8; 16]>);
impl Aes {
    #[inline(never)]
    pub fn new(key: &[u8]) -> Aes {
        let nk = key.len() / 4;
        let nr = nk + 6;
        let mut w: Vec<[u8; 4]> = vec![];
        for i in 0..nk {
            w.push([key[4 * i], key[4 * i + 1], key[4 * i + 2], key[4 * i + 3]]);
        }
        let mut rcon = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t = [sym_hook_sbox(t[1]) ^ rcon, sym_hook_sbox(t[2]), sym_hook_sbox(t[3]), sym_hook_sbox(t[0])];
                rcon = xtime(rcon);
            } else if nk > 6 && i % nk == 4 {
                t = [sym_hook_sbox(t[0]), sym_hook_sbox(t[1]), sym_hook_sbox(t[2]), sym_hook_sbox(t[3])];
            }
            let p = w[i - nk];
            w.push([t[0] ^ p[0], t[1] ^ p[1], t[2] ^ p[2], t[3] ^ p[3]]);
        }
        let mut rk = vec![];
        for r in 0..=nr {
            let mut k = [0u8; 16];
            for i in 0..16 {
                k[i] = w[4 * r + i / 4][i % 4];
            }
            rk.push(k);
        }
        Aes(rk)
    }
    #[inline(never)]
    pub fn enc(&self, inp: &[u8; 16]) -> [u8; 16] {
        let rk = &self.0;
        let mut s = *inp;
        for i in 0..16 {
            s[i] ^= rk[0][i];
        }
        let nr = rk.len() - 1;
        for r in 1..=nr {
            let mut t = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    t[4 * c + row] = sym_hook_sbox(s[4 * ((c + row) % 4) + row]);
                }
            }
            if r != nr {
                for c in 0..4 {
                    let a = [t[4 * c], t[4 * c + 1], t[4 * c + 2], t[4 * c + 3]];
                    for i in 0..4 {
                        t[4 * c + i] =
                            xtime(a[i]) ^ xtime(a[(i + 1) % 4]) ^ a[(i + 1) % 4] ^ a[(i + 2) % 4] ^ a[(i + 3) % 4];
                    }
                }
            }
            for i in 0..16 {
                s[i] = t[i] ^ rk[r][i];
            }
        }
        s
    }
}

// ---- GCM (SP 800-38D)

#[inline(never)]
fn gf128_mul(x: u128, h: u128) -> u128 {
    let mut z = 0u128;
    let mut v = h;
    for i in 0..128 {
        let m = 0u128.wrapping_sub((x >> (127 - i)) & 1);
        z ^= v & std::hint::black_box(m);
        let lsb = 0u128.wrapping_sub(v & 1);
        v = (v >> 1) ^ (lsb & (0xe1u128 << 120));
    }
    z
}

#[inline(never)]
pub fn ghash(h: u128, aad: &[u8], ct: &[u8]) -> u128 {
    let mut y = 0u128;
    for part in [aad, ct] {
        for c in part.chunks(16) {
            let mut b = [0u8; 16];
            b[..c.len()].copy_from_slice(c);
            y = gf128_mul(y ^ u128::from_be_bytes(b), h);
        }
    }
    let l = ((aad.len() as u128 * 8) << 64) | (ct.len() as u128 * 8);
    gf128_mul(y ^ l, h)
}

pub fn gcm_tag(aes: &Aes, nonce: &[u8; 12], aad: &[u8], ct: &[u8]) -> [u8; 16] {
    let h = u128::from_be_bytes(aes.enc(&[0; 16]));
    let mut j0 = [0u8; 16];
    j0[..12].copy_from_slice(nonce);
    j0[15] = 1;
    let s = ghash(h, aad, ct);
    (s ^ u128::from_be_bytes(aes.enc(&j0))).to_be_bytes()
}

pub fn gcm_ctr(aes: &Aes, nonce: &[u8; 12], data: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    for (i, c) in data.chunks(16).enumerate() {
        let mut ctr = [0u8; 16];
        ctr[..12].copy_from_slice(nonce);
        ctr[12..].copy_from_slice(&(i as u32 + 2).to_be_bytes());
        let k = aes.enc(&ctr);
        for j in 0..c.len() {
            out.push(c[j] ^ k[j]);
        }
    }
    out
}

pub fn gcm(key: &[u8], nonce: &[u8; 12], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
    let aes = Aes::new(key);
    let ct = gcm_ctr(&aes, nonce, pt);
    let tag = gcm_tag(&aes, nonce, aad, &ct);
    (ct, tag)
}

// ---- ChaCha20, HChaCha20, Poly1305 (RFC 8439, draft-irtf-cfrg-xchacha)

fn le32(b: &[u8]) -> u32 {
    u32::from_le_bytes([b[0], b[1], b[2], b[3]])
}

#[inline(never)]
fn chacha_rounds(x: &mut [u32; 16]) {
    fn qr(x: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
        x[a] = x[a].wrapping_add(x[b]);
        x[d] = (x[d] ^ x[a]).rotate_left(16);
        x[c] = x[c].wrapping_add(x[d]);
        x[b] = (x[b] ^ x[c]).rotate_left(12);
        x[a] = x[a].wrapping_add(x[b]);
        x[d] = (x[d] ^ x[a]).rotate_left(8);
        x[c] = x[c].wrapping_add(x[d]);
        x[b] = (x[b] ^ x[c]).rotate_left(7);
    }
    for _ in 0..10 {
        for i in 0..4 {
            qr(x, i, i + 4, i + 8, i + 12);
        }
        for i in 0..4 {
            qr(x, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
        }
    }
}
fn chacha_state(key: &[u8; 32], n: [u32; 4]) -> [u32; 16] {
    let mut s = [0u32; 16];
    s[..4].copy_from_slice(&[0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]);
    for i in 0..8 {
        s[4 + i] = le32(&key[4 * i..]);
    }
    s[12..].copy_from_slice(&n);
    s
}
pub fn chacha_block(key: &[u8; 32], ctr: u32, nonce: &[u8; 12]) -> [u8; 64] {
    let s = chacha_state(key, [ctr, le32(nonce), le32(&nonce[4..]), le32(&nonce[8..])]);
    let mut x = s;
    chacha_rounds(&mut x);
    let mut out = [0u8; 64];
    for i in 0..16 {
        out[4 * i..4 * i + 4].copy_from_slice(&x[i].wrapping_add(s[i]).to_le_bytes());
    }
    out
}
pub fn hchacha(key: &[u8; 32], n: &[u8]) -> [u8; 32] {
    let mut x = chacha_state(key, [le32(n), le32(&n[4..]), le32(&n[8..]), le32(&n[12..])]);
    chacha_rounds(&mut x);
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[4 * i..4 * i + 4].copy_from_slice(&x[i].to_le_bytes());
        out[16 + 4 * i..20 + 4 * i].copy_from_slice(&x[12 + i].to_le_bytes());
    }
    out
}
pub fn chacha_xor(key: &[u8; 32], nonce: &[u8; 12], data: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    for (i, c) in data.chunks(64).enumerate() {
        let k = chacha_block(key, i as u32 + 1, nonce);
        for j in 0..c.len() {
            out.push(c[j] ^ k[j]);
        }
    }
    out
}

/// Poly1305 (RFC 8439), five 26-bit limbs, products folded with 5*r
#[inline(never)]
pub fn poly1305(key: &[u8; 32], msg: &[u8]) -> [u8; 16] {
    const M: u32 = 0x3ffffff;
    fn ld(b: &[u8; 17]) -> [u32; 5] {
        let lo = u128::from_le_bytes(b[..16].try_into().unwrap());
        [
            lo as u32 & M,
            (lo >> 26) as u32 & M,
            (lo >> 52) as u32 & M,
            (lo >> 78) as u32 & M,
            (lo >> 104) as u32 | ((b[16] as u32) << 24),
        ]
    }
    let mut rb = [0u8; 17];
    rb[..16].copy_from_slice(&key[..16]);
    for i in [3, 7, 11, 15] {
        rb[i] &= 15;
    }
    for i in [4, 8, 12] {
        rb[i] &= 252;
    }
    let r = ld(&rb);
    let mut h = [0u32; 5];
    for c in msg.chunks(16) {
        let mut b = [0u8; 17];
        b[..c.len()].copy_from_slice(c);
        b[c.len()] = 1;
        let m = ld(&b);
        for i in 0..5 {
            h[i] += m[i];
        }
        let mut d = [0u64; 5];
        for k in 0..5 {
            for i in 0..5 {
                let x = if i <= k { r[k - i] } else { 5 * r[k + 5 - i] };
                d[k] += h[i] as u64 * x as u64;
            }
        }
        for i in 0..4 {
            d[i + 1] += d[i] >> 26;
            h[i] = d[i] as u32 & M;
        }
        h[4] = d[4] as u32 & M;
        h[0] += (d[4] >> 26) as u32 * 5;
        h[1] += h[0] >> 26;
        h[0] &= M;
    }
    for i in 1..4 {
        h[i + 1] += h[i] >> 26;
        h[i] &= M;
    }
    h[0] += (h[4] >> 26) * 5;
    h[4] &= M;
    h[1] += h[0] >> 26;
    h[0] &= M;
    // subtract p if h >= p: h + 5 - 2^130 not negative
    let mut g = h;
    g[0] += 5;
    for i in 0..4 {
        g[i + 1] += g[i] >> 26;
        g[i] &= M;
    }
    g[4] = std::hint::black_box(g[4]).wrapping_sub(1 << 26);
    let neg = std::hint::black_box(0u32.wrapping_sub(g[4] >> 31));
    for i in 0..5 {
        h[i] = (h[i] & neg) | (g[i] & !neg);
    }
    // low 128 bits, in four words, plus s
    let w = [
        h[0] | (h[1] << 26),
        (h[1] >> 6) | (h[2] << 20),
        (h[2] >> 12) | (h[3] << 14),
        (h[3] >> 18) | (h[4] << 8),
    ];
    let mut out = [0u8; 16];
    let mut c = 0u64;
    for i in 0..4 {
        c = w[i] as u64 + le32(&key[16 + 4 * i..]) as u64 + (c >> 32);
        out[4 * i..4 * i + 4].copy_from_slice(&(c as u32).to_le_bytes());
    }
    out
}

pub fn chapoly_tag(key: &[u8; 32], nonce: &[u8; 12], aad: &[u8], ct: &[u8]) -> [u8; 16] {
    let pk: [u8; 32] = chacha_block(key, 0, nonce)[..32].try_into().unwrap();
    let mut m = aad.to_vec();
    while m.len() % 16 != 0 {
        m.push(0);
    }
    m.extend_from_slice(ct);
    while m.len() % 16 != 0 {
        m.push(0);
    }
    m.extend_from_slice(&(aad.len() as u64).to_le_bytes());
    m.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    poly1305(&pk, &m)
}
pub fn chacha20poly1305(key: &[u8; 32], nonce: &[u8; 12], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
    let ct = chacha_xor(key, nonce, pt);
    let tag = chapoly_tag(key, nonce, aad, &ct);
    (ct, tag)
}
/// XChaCha20-Poly1305 is ChaCha20-Poly1305 with a derived key and nonce
pub fn xchacha_derive(key: &[u8; 32], n: &[u8; 24]) -> ([u8; 32], [u8; 12]) {
    let k = hchacha(key, &n[..16]);
    let mut nn = [0u8; 12];
    nn[4..].copy_from_slice(&n[16..]);
    (k, nn)
}

pub fn hmac(h: fn(&[u8]) -> Vec<u8>, bl: usize, key: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > bl { h(key) } else { key.to_vec() };
    k.resize(bl, 0);
    let mut i: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    i.extend_from_slice(msg);
    let mut o: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    o.extend_from_slice(&h(&i));
    h(&o)
}

// ---------------------------------------------------------------- Keccak (FIPS 202)
#[inline(never)]
fn keccak_f(a: &mut [u64; 25]) {
    // round constants from the LFSR, rotations from the (x, y) walk
    let mut lfsr = 1u8;
    for _ in 0..24 {
        let mut c = [0u64; 5];
        for x in 0..5 {
            for y in 0..5 {
                c[x] ^= a[x + 5 * y];
            }
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        let mut b = [0u64; 25];
        b[0] = a[0];
        let (mut x, mut y) = (1, 0);
        for t in 0..24u32 {
            let r = ((t + 1) * (t + 2) / 2) % 64;
            let (nx, ny) = (y, (2 * x + 3 * y) % 5);
            b[nx + 5 * ny] = a[x + 5 * y].rotate_left(r);
            (x, y) = (nx, ny);
        }
        for y in 0..5 {
            for x in 0..5 {
                a[x + 5 * y] = b[x + 5 * y] ^ (!b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
            }
        }
        for j in 0..7 {
            if lfsr & 1 == 1 {
                a[0] ^= 1u64 << ((1u32 << j) - 1);
            }
            let hi = lfsr >> 7;
            lfsr <<= 1;
            if hi == 1 {
                lfsr ^= 0x71;
            }
        }
    }
}
pub fn keccak_hash(rate: usize, pad: u8, msg: &[u8], out: &mut [u8]) {
    let mut m = msg.to_vec();
    m.push(pad);
    while m.len() % rate != 0 {
        m.push(0);
    }
    let l = m.len();
    m[l - 1] ^= 0x80;
    let mut s = [0u64; 25];
    for b in m.chunks(rate) {
        for (i, w) in b.chunks(8).enumerate() {
            s[i] ^= u64::from_le_bytes(w.try_into().unwrap());
        }
        keccak_f(&mut s);
    }
    let n = out.len();
    for (k, o) in out.chunks_mut(rate).enumerate() {
        let _ = n;
        if k > 0 {
            keccak_f(&mut s);
        }
        for (i, b) in o.iter_mut().enumerate() {
            *b = (s[i / 8] >> (8 * (i % 8))) as u8;
        }
    }
}
