#!/usr/bin/env python3-vt
"""RSA keys and signatures for the harness, made with plain integer arithmetic (independent of graviola).
Writes harness/src/vec_rsa.rs."""
import hashlib, random
from sympy import isprime

random.seed(20240611)


def ln(n):
    if n < 128:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([128 + len(b)]) + b


def tlv(t, b):
    return bytes([t]) + ln(len(b)) + b


def i2(n):
    return tlv(2, n.to_bytes(n.bit_length() // 8 + 1, "big"))


def prime(bits, lo, e):
    while 1:
        x = (lo << (bits - 4)) | random.getrandbits(bits - 4) | 1
        if (x - 1) % e and isprime(x):
            return x


def mk(bits, e, order, los=None):
    while 1:
        a, b = prime((bits + 1) // 2, random.choice(los or range(8, 16)), e), prime(bits // 2, random.choice(los or range(8, 16)), e)
        if (a * b).bit_length() == bits and a != b:
            try:
                pow(e, -1, (a - 1) * (b - 1))
            except ValueError:
                continue
            break
    p, q = max(a, b), min(a, b)
    if order:
        p, q = q, p
    return p, q, e


H = {0: ("sha256", bytes.fromhex("3031300d060960864801650304020105000420")),
     1: ("sha384", bytes.fromhex("3041300d060960864801650304020205000430")),
     2: ("sha512", bytes.fromhex("3051300d060960864801650304020305000440"))}


def h(k, m):
    return hashlib.new(H[k][0], m).digest()


def pkcs1(k, m, n):
    t = H[k][1] + h(k, m)
    kl = (n.bit_length() + 7) // 8
    return b"\0\1" + b"\xff" * (kl - len(t) - 3) + b"\0" + t


def mgf(k, seed, n):
    o = b""
    i = 0
    while len(o) < n:
        o += h(k, seed + i.to_bytes(4, "big"))
        i += 1
    return o[:n]


def pss(k, m, n, salt):
    eb = n.bit_length() - 1
    el = (eb + 7) // 8
    hh = h(k, bytes(8) + h(k, m) + salt)
    db = bytes(el - len(hh) - len(salt) - 2) + b"\1" + salt
    db = bytearray(a ^ b for a, b in zip(db, mgf(k, hh, len(db))))
    db[0] &= 0xff >> (8 * el - eb)
    return bytes(db) + hh + b"\xbc"


keys = [mk(2048, 65537, 0), mk(2048, 65537, 1, [11, 15]), mk(2050, 3, 0), mk(2056, 65537, 0), mk(3072, 65537, 0),
        mk(4095, 65537, 0), mk(2048, 4294967291, 0), mk(4096, 17, 0), mk(2049, 65537, 0)]
MSG = b"message to be signed"
o = ["// written by tools/rsavec.py", "pub struct RsaKey { pub n: &'static [u8], pub bits: usize, pub e: u32, pub priv_der: &'static [u8], pub pub_der: &'static [u8], pub p: &'static [u8], pub q: &'static [u8], pub d: &'static [u8], pub dp: &'static [u8], pub dq: &'static [u8], pub iq: &'static [u8] }",
     "/// hash, salt (empty: PKCS#1 v1.5), signature over MSG", "pub struct RsaSig { pub h: usize, pub salt: &'static [u8], pub sig: &'static [u8] }"]


def b(x):
    if isinstance(x, int):
        x = x.to_bytes(max(1, (x.bit_length() + 7) // 8), "big")
    return 'b"' + "".join("\\x%02x" % c for c in x) + '"'


ks, ss = [], []
for p, q, e in keys:
    n = p * q
    d = pow(e, -1, (p - 1) * (q - 1))
    dp, dq, iq = d % (p - 1), d % (q - 1), pow(q, -1, p)
    priv = tlv(0x30, i2(0) + b"".join(map(i2, (n, e, d, p, q, dp, dq, iq))))
    pub = tlv(0x30, i2(n) + i2(e))
    ks.append("RsaKey { n: %s, bits: %d, e: %d, priv_der: %s, pub_der: %s, p: %s, q: %s, d: %s, dp: %s, dq: %s, iq: %s }" % (
        b(n), n.bit_length(), e, b(priv), b(pub), b(p), b(q), b(d), b(dp), b(dq), b(iq)))
    kl = (n.bit_length() + 7) // 8
    l = []
    for k in (0, 1, 2):
        for salt in (b"", bytes((7 * i + k) & 255 for i in range(hashlib.new(H[k][0]).digest_size))):
            em = pss(k, MSG, n, salt) if salt else pkcs1(k, MSG, n)
            s = pow(int.from_bytes(em, "big"), d, n)
            assert pow(s, e, n) == int.from_bytes(em, "big")
            l.append("RsaSig { h: %d, salt: %s, sig: %s }" % (k, b(salt), b(s.to_bytes(kl, "big"))))
    ss.append("&[" + ",\n".join(l) + "]")
big = []
for bits in (8192, 2048, 6000):
    n = random.getrandbits(bits) | 1 | 1 << (bits - 1)
    big.append("RsaKey { n: %s, bits: %d, e: 65537, priv_der: &[], pub_der: %s, p: &[], q: &[], d: &[], dp: &[], dq: &[], iq: &[] }" % (b(n), bits, b(tlv(0x30, i2(n) + i2(65537)))))
o.append("pub static KEYS: &[RsaKey] = &[\n" + ",\n".join(ks + big) + "];")
o.append("pub static SIGS: &[&[RsaSig]] = &[\n" + ",\n".join(ss) + "];")
# moduli out of bounds, for public keys
bad = []
for nm, n in (("2040 bits", (1 << 2039) | 5), ("even", (1 << 2047) | 6), ("8193 bits", (1 << 8192) | 1), ("1024 bits", (1 << 1023) | 1)):
    bad.append("(%s, %s)" % ('"%s"' % nm, b(n)))
o.append("pub static BAD_N: &[(&str, &[u8])] = &[\n" + ",\n".join(bad) + "];")
open(__file__.rsplit("/", 2)[0] + "/harness/src/vec_rsa.rs", "w").write("\n".join(o) + "\n")
