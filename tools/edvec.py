#!/usr/bin/env python3-vt
"""X25519, Ed25519, ML-KEM-768 and ECDSA-signing vectors from plain integer arithmetic (independent of graviola).
Writes harness/src/vec_ed.rs."""
import hashlib, hmac, random
random.seed(77)
P = 2**255 - 19
L = 2**252 + 27742317777372353535851937790883648493
D = -121665 * pow(121666, -1, P) % P
I = pow(2, (P - 1) // 4, P)
def rs(b): return 'b"' + "".join("\\x%02x" % x for x in b) + '"'
def le(n, k=32): return n.to_bytes(k, "little")
def rb(n): return bytes(random.getrandbits(8) for _ in range(n))
# ------------------------------------------------------------ X25519
def x25519(k, u):
    k = bytearray(k); k[0] &= 248; k[31] &= 127; k[31] |= 64
    k = int.from_bytes(k, "little"); u = int.from_bytes(u, "little") & (2**255 - 1)
    x1 = u % P; x2, z2, x3, z3, sw = 1, 0, x1, 1, 0
    for t in reversed(range(255)):
        b = (k >> t) & 1
        if sw ^ b: x2, x3, z2, z3 = x3, x2, z3, z2
        sw = b
        A = x2 + z2; B = x2 - z2; AA = A * A % P; BB = B * B % P; E = AA - BB
        C = x3 + z3; DD = x3 - z3; DA = DD * A % P; CB = C * B % P
        x3 = (DA + CB)**2 % P; z3 = x1 * (DA - CB)**2 % P; x2 = AA * BB % P; z2 = E * (AA + 121665 * E) % P
    if sw: x2, z2 = x3, z3
    return le(x2 * pow(z2, P - 2, P) % P)
assert x25519(bytes.fromhex("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4"), bytes.fromhex("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c")).hex() == "c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552"
us = [0, 1, P - 1, P, P + 1, 2**255 - 1, 9, 2, 3, P - 9, P + 9, P - 2, 2**254, 2**255 - 20 - 18,
      325606250916557431795983626356110631294008115727848805560023387167927233504,
      39382357235489614581723060781553021112529911719440698176882885853963445705823]
us += [2**64 - 1, 2**128 - 1, 2**192 - 1, 2**255 - 2**64, 2**255 - 2**192]
us += [random.getrandbits(255) for _ in range(14)]
ks = [bytes(32), b"\xff" * 32, b"\x01" + bytes(31), bytes(31) + b"\x80", bytes(31) + b"\x7f", b"\x08" + bytes(31), le(L, 32), le(8 * L % 2**256), le(2**255 - 20), le((2**254 + 8)), b"\x55" * 32, b"\xaa" * 32]
ks += [rb(32) for _ in range(12)]
o = ["// written by tools/edvec.py", "pub struct X { pub k: &'static [u8; 32], pub u: &'static [u8; 32], pub r: &'static [u8; 32] }",
     "pub static X25519: &[X] = &["]
for i in range(60):
    k, u = ks[(i * 7 + i // 5) % len(ks)], le(us[i % len(us)])
    o.append("  X { k: %s, u: %s, r: %s }," % (rs(k), rs(u), rs(x25519(k, u))))
o.append("];")
o.append("pub static X25519_BASE: &[X] = &[")
for k in ks:
    o.append("  X { k: %s, u: %s, r: %s }," % (rs(k), rs(le(9)), rs(x25519(k, le(9)))))
o.append("];")
# ------------------------------------------------------------ Ed25519
def add(p, q):
    (x1, y1), (x2, y2) = p, q
    t = D * x1 * x2 * y1 * y2 % P
    return ((x1 * y2 + x2 * y1) * pow(1 + t, P - 2, P) % P, (y1 * y2 + x1 * x2) * pow(1 - t, P - 2, P) % P)
def mul(n, p):
    r = (0, 1)
    while n:
        if n & 1: r = add(r, p)
        p = add(p, p); n >>= 1
    return r
def sqrtx(y, sgn):
    """x for y, None if not on the curve; sgn with x = 0 -> None"""
    x2 = (y * y - 1) * pow(D * y * y + 1, P - 2, P) % P
    if x2 == 0: return None if sgn else 0
    x = pow(x2, (P + 3) // 8, P)
    if (x * x - x2) % P: x = x * I % P
    if (x * x - x2) % P: return None
    return P - x if x & 1 != sgn else x
def enc(p): return le(p[1] | (p[0] & 1) << 255)
def dec(b):
    n = int.from_bytes(b, "little"); y = n & (2**255 - 1)
    if y >= P: return None
    x = sqrtx(y, n >> 255)
    return None if x is None else (x, y)
B = (sqrtx(4 * pow(5, P - 2, P) % P, 0), 4 * pow(5, P - 2, P) % P)
def H(*a): return int.from_bytes(hashlib.sha512(b"".join(a)).digest(), "little")
def expand(seed):
    h = bytearray(hashlib.sha512(seed).digest()); a = h[:32]; a[0] &= 248; a[31] &= 127; a[31] |= 64
    return int.from_bytes(a, "little"), bytes(h[32:])
def sign(seed, m):
    a, pre = expand(seed); A = enc(mul(a, B)); r = H(pre, m) % L; R = enc(mul(r, B))
    return A, R + le((r + H(R, A, m) * a) % L)
assert sign(bytes.fromhex("9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60"), b"")[1].hex().startswith("e5564300c360ac729086e2cc806e828a")
def verify(A, m, s):
    """cofactorless, as RFC 8032 5.1.7 allows, with the encodings compared"""
    p = dec(A)
    if p is None or len(s) != 64: return False
    S = int.from_bytes(s[32:], "little")
    if S >= L: return False
    k = H(s[:32], A, m) % L
    n = ((P - p[0]) % P, p[1])
    return enc(add(mul(S, B), mul(k, n))) == s[:32]
o += ["pub struct Ed { pub seed: &'static [u8; 32], pub pk: &'static [u8; 32], pub msg: &'static [u8], pub sig: &'static [u8; 64] }", "pub static ED_SIGN: &[Ed] = &["]
MSG = b"message to be signed"
signed = []
for i, n in enumerate([0, 1, 2, 20, 31, 32, 33, 47, 48, 63, 64, 65, 79, 80, 95, 96, 111, 112, 127, 128, 129, 200, 240, 300]):
    seed = [bytes(32), b"\xff" * 32, rb(32)][min(2, i)] if i < 3 else rb(32)
    m = bytes((j * 7 + i) & 255 for j in range(n))
    A, s = sign(seed, m)
    assert verify(A, m, s)
    signed.append((A, m, s))
    o.append("  Ed { seed: %s, pk: %s, msg: %s, sig: %s }," % (rs(seed), rs(A), rs(m), rs(s)))
o.append("];")
# torsion
def order8():
    while 1:
        y = random.randrange(P); x = sqrtx(y, 0)
        if x is None: continue
        t = mul(L, (x, y))
        if mul(4, t) != (0, 1): return t
T8 = order8()
tors = [mul(i, T8) for i in range(8)]
o += ["pub struct EdV { pub pk: &'static [u8], pub msg: &'static [u8], pub sig: &'static [u8], pub ok: bool }", "pub static ED_VERIFY: &[EdV] = &["]
ver = []
def put(A, m, s, note=None):
    ok = verify(A, m, s)
    if note is not None: assert ok == note, (A.hex(), note)
    ver.append((A, m, s, ok))
for A, m, s in signed[:4]:
    put(A, m, s, True)
    S = int.from_bytes(s[32:], "little")
    for j in range(1, 15):
        if S + j * L < 2**256: put(A, m, s[:32] + le(S + j * L), False)
    put(A, m, s[:32] + le((-S) % L), False)
    put(A, m, s[:31] + bytes([s[31] ^ 0x80]) + s[32:], False)
    put(A, m + b"x", s, False)
    put(A, m, s[:32] + bytes(32)); put(A, m, bytes(64)); put(A, m, le(1) + s[32:]); put(A, m, s[32:] + s[:32])
    put(A[:31] + bytes([A[31] ^ 0x80]), m, s, False)
# small-order keys and R: A of small order, S = 0: R = -[k]A
for t in tors:
    for m in [bytes([i]) for i in range(12)]:
        A = enc(t)
        for u in tors:
            s = enc(u) + bytes(32)
            if verify(A, m, s): put(A, m, s, True); break
        if len(ver) % 3 == 0: put(A, m, enc(tors[3]) + bytes(32))
# S a multiple of the order, where S = 0 is right
for A, m, s, ok in list(ver):
    if ok and s[32:] == bytes(32):
        for j in (1, 2, 8, 15): put(A, m, s[:32] + le(j * L), False)
# mixed-order keys
for i in (1, 2, 4, 7):
    a = random.randrange(L); A = enc(add(mul(a, B), tors[i])); r = random.randrange(L)
    for m in [bytes([i, j]) for j in range(10)]:
        R = enc(mul(r, B)); k = H(R, A, m) % L
        put(A, m, R + le((r + k * a) % L))      # right only if 8 | i * k
        R2 = enc(add(mul(r, B), tors[1])); k = H(R2, A, m) % L
        put(A, m, R2 + le((r + k * a) % L))
# R with non-canonical encoding of the right point (y = 1 as p + 1)
for m in [bytes([j, 9]) for j in range(6)]:
    put(enc((0, 1)), m, enc((0, 1)) + bytes(32), True)
    put(enc((0, 1)), m, le(P + 1) + bytes(32), False)
    put(enc((0, 1)), m, le(1 | 1 << 255) + bytes(32), False)
for A, m, s, ok in ver:
    o.append("  EdV { pk: %s, msg: %s, sig: %s, ok: %s }," % (rs(A), rs(m), rs(s), str(ok).lower()))
o.append("];")
o += ["pub static ED_POINTS: &[(&[u8; 32], bool)] = &["]
pts = []
for y in list(range(0, 12)) + list(range(P - 12, 2**255)) + [2**64 - 1, 2**128, 2**192 - 1, 2**254]:
    for s in (0, 1): pts.append(le(y | s << 255))
for t in tors: pts += [enc(t), enc(t)[:31] + bytes([enc(t)[31] ^ 0x80])]
pts += [rb(32) for _ in range(16)]
for b in pts: o.append("  (%s, %s)," % (rs(b), str(dec(b) is not None).lower()))
o.append("];")
# ------------------------------------------------------------ ML-KEM-768
Q = 3329
ZET = [pow(17, int(format(i, "07b")[::-1], 2), Q) for i in range(128)]
GAM = [pow(17, 2 * int(format(i, "07b")[::-1], 2) + 1, Q) for i in range(128)]
def ntt(f):
    f = f[:]; i = 1; l = 128
    while l >= 2:
        for st in range(0, 256, 2 * l):
            z = ZET[i]; i += 1
            for j in range(st, st + l):
                t = z * f[j + l] % Q; f[j + l] = (f[j] - t) % Q; f[j] = (f[j] + t) % Q
        l //= 2
    return f
def intt(f):
    f = f[:]; i = 127; l = 2
    while l <= 128:
        for st in range(0, 256, 2 * l):
            z = ZET[i]; i -= 1
            for j in range(st, st + l):
                t = f[j]; f[j] = (t + f[j + l]) % Q; f[j + l] = z * (f[j + l] - t) % Q
        l *= 2
    return [x * 3303 % Q for x in f]
def bm(f, g):
    h = []
    for i in range(128):
        a0, a1, b0, b1 = f[2*i], f[2*i+1], g[2*i], g[2*i+1]
        h += [(a0 * b0 + a1 * b1 * GAM[i]) % Q, (a0 * b1 + a1 * b0) % Q]
    return h
def padd(a, b): return [(x + y) % Q for x, y in zip(a, b)]
def sample(seed):
    buf = hashlib.shake_128(seed).digest(168 * 40); r = []; i = 0
    while len(r) < 256:
        a, b, c = buf[i:i+3]; i += 3
        for d in (a + 256 * (b % 16), b // 16 + 16 * c):
            if d < Q and len(r) < 256: r.append(d)
    return r, i
def cbd(b):
    n = int.from_bytes(b, "little"); bits = [(n >> i) & 1 for i in range(1024)]
    return [(bits[4*i] + bits[4*i+1] - bits[4*i+2] - bits[4*i+3]) % Q for i in range(256)]
def pack(f, d):
    n = 0
    for i, x in enumerate(f): n |= x << (d * i)
    return n.to_bytes(32 * d, "little")
def unpack(b, d):
    n = int.from_bytes(b, "little"); return [(n >> (d * i)) & ((1 << d) - 1) for i in range(256)]
def comp(x, d): return ((x << (d + 1)) + Q) // (2 * Q) % (1 << d)
def deco(y, d): return (y * Q * 2 + (1 << d)) >> (d + 1)
def G(b): h = hashlib.sha3_512(b).digest(); return h[:32], h[32:]
def prf(s, n): return hashlib.shake_256(s + bytes([n])).digest(128)
LONG = 0
def matA(rho):
    global LONG
    A = [[None] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            A[i][j], n = sample(rho + bytes([j, i])); LONG = max(LONG, n)
    return A
def keygen(d, z):
    rho, sig = G(d + b"\x03"); A = matA(rho)
    s = [ntt(cbd(prf(sig, i))) for i in range(3)]; e = [ntt(cbd(prf(sig, 3 + i))) for i in range(3)]
    t = []
    for i in range(3):
        a = e[i]
        for j in range(3): a = padd(a, bm(A[i][j], s[j]))
        t.append(a)
    ek = b"".join(pack(x, 12) for x in t) + rho
    dk = b"".join(pack(x, 12) for x in s) + ek + hashlib.sha3_256(ek).digest() + z
    return ek, dk
def encr(ek, m, r):
    t = [unpack(ek[384*i:384*i+384], 12) for i in range(3)]; A = matA(ek[1152:])
    y = [ntt(cbd(prf(r, i))) for i in range(3)]; e1 = [cbd(prf(r, 3 + i)) for i in range(3)]; e2 = cbd(prf(r, 6))
    c = b""
    for i in range(3):
        a = [0] * 256
        for j in range(3): a = padd(a, bm(A[j][i], y[j]))
        c += pack([comp(x, 10) for x in padd(intt(a), e1[i])], 10)
    a = [0] * 256
    for j in range(3): a = padd(a, bm(t[j], y[j]))
    mu = [deco(x, 1) for x in unpack(m, 1)]
    return c + pack([comp(x, 4) for x in padd(padd(intt(a), e2), mu)], 4)
def encaps(ek, m):
    K, r = G(m + hashlib.sha3_256(ek).digest()); return K, encr(ek, m, r)
def decaps(dk, c):
    s = [unpack(dk[384*i:384*i+384], 12) for i in range(3)]; ek = dk[1152:2336]
    u = [[deco(x, 10) for x in unpack(c[320*i:320*i+320], 10)] for i in range(3)]; v = [deco(x, 4) for x in unpack(c[960:], 4)]
    a = [0] * 256
    for j in range(3): a = padd(a, bm(s[j], ntt(u[j])))
    w = [(x - y) % Q for x, y in zip(v, intt(a))]
    m = pack([comp(x, 1) for x in w], 1)
    K, r = G(m + dk[2336:2368])
    return K if encr(ek, m, r) == c else hashlib.shake_256(dk[2368:] + c).digest(32)
o += ["pub struct Kem { pub seed: &'static [u8; 64], pub ek: &'static [u8; 1184], pub dk: &'static [u8; 2400], pub m: &'static [u8; 32], pub k: &'static [u8; 32], pub c: &'static [u8; 1088] }", "pub static KEM: &[Kem] = &["]
# one key whose matrix sampling needs more than three blocks (504 bytes)
n = 0
kems = []
while len(kems) < 10:
    seed = [bytes(64), b"\xff" * 64][n] if n < 2 else rb(64)
    n += 1
    if len(kems) == 9:
        LONG = 0
        rho, _ = G(seed[:32] + b"\x03"); matA(rho)
        if LONG <= 504: continue
    ek, dk = keygen(seed[:32], seed[32:]); m = [bytes(32), b"\xff" * 32][n - 1] if n < 3 else rb(32)
    K, c = encaps(ek, m); assert decaps(dk, c) == K
    kems.append(1)
    o.append("  Kem { seed: %s, ek: %s, dk: %s, m: %s, k: %s, c: %s }," % tuple(map(rs, (seed, ek, dk, m, K, c))))
o.append("];")
o += ["/// decapsulations: key, ciphertext, shared secret", "pub static KEM_DEC: &[(usize, &[u8; 1088], &[u8; 32])] = &["]
ek, dk = keygen(bytes(32), bytes(32))
for c in [bytes(1088), b"\xff" * 1088, rb(1088), rb(1088), encaps(ek, rb(32))[1], encr(ek, bytes(32), rb(32))]:
    o.append("  (0, %s, %s)," % (rs(c), rs(decaps(dk, c))))
o.append("];")
# ------------------------------------------------------------ ECDSA signing
EC = {}
p = 2**256 - 2**224 + 2**192 + 2**96 - 1
EC[0] = (p, p - 3, 0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296, 0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5, 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551, 32)
p = 2**384 - 2**128 - 2**96 + 2**32 - 1
EC[1] = (p, p - 3, 0xaa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7, 0x3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f, 0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973, 48)
def ecadd(c, a, b):
    if a is None: return b
    if b is None: return a
    p = c[0]
    if a[0] == b[0]:
        if (a[1] + b[1]) % p == 0: return None
        l = (3 * a[0] * a[0] + c[1]) * pow(2 * a[1], -1, p) % p
    else: l = (b[1] - a[1]) * pow(b[0] - a[0], -1, p) % p
    x = (l * l - a[0] - b[0]) % p
    return x, (l * (a[0] - x) - a[1]) % p
def ecmul(c, n, a=None):
    a = a or (c[2], c[3]); r = None
    while n:
        if n & 1: r = ecadd(c, r, a)
        a = ecadd(c, a, a); n >>= 1
    return r
HN = ["sha256", "sha384", "sha512"]
def drbg(h, seed, n, bad=lambda b: False):
    hl = hashlib.new(h).digest_size; K = bytes(hl); V = b"\x01" * hl
    mac = lambda k, m: hmac.new(k, m, h).digest()
    K = mac(K, V + b"\0" + seed); V = mac(K, V); K = mac(K, V + b"\x01" + seed); V = mac(K, V)
    while 1:
        T = b""
        while len(T) < n: V = mac(K, V); T += V
        T = T[:n]
        if not bad(T): return T
        K = mac(K, V + b"\0"); V = mac(K, V)
o += ["pub struct EcKey { pub c: usize, pub d: &'static [u8], pub q: &'static [u8] }", "pub static EC_KEYS: &[EcKey] = &["]
keys = []
for c in (0, 1):
    n = EC[c][4]; l = EC[c][5]
    for d in (1, n - 1, random.randrange(n), random.randrange(2**(8*l-12))):
        q = ecmul(EC[c], d); keys.append((c, d))
        o.append("  EcKey { c: %d, d: %s, q: %s }," % (c, rs(d.to_bytes(l, "big")), rs(b"\x04" + q[0].to_bytes(l, "big") + q[1].to_bytes(l, "big"))))
o.append("];")
o += ["/// key, hash, message, randomness (empty: the nonce is given), nonce, signature", "pub struct EcSig { pub key: usize, pub h: usize, pub msg: &'static [u8], pub rnd: &'static [u8], pub k: &'static [u8], pub sig: &'static [u8] }", "pub static EC_SIGN: &[EcSig] = &["]
def ecsig(c, d, e, k):
    n = EC[c][4]; r = ecmul(EC[c], k)[0] % n; return r, pow(k, -1, n) * (e + r * d) % n
for ki, (c, d) in enumerate(keys):
    n = EC[c][4]; l = EC[c][5]
    for h in range(3):
        for i in range(2):
            m = bytes((j * 3 + ki + i) & 255 for j in range([20, 130][i] + ki))
            dg = hashlib.new(HN[h], m).digest(); e = int.from_bytes(dg[:l], "big") % n
            rnd = rb(16)
            k = drbg(HN[h], d.to_bytes(l, "big") + e.to_bytes(l, "big") + rnd, l, lambda b: not 0 < int.from_bytes(b, "big") < n)
            r, s = ecsig(c, d, e, int.from_bytes(k, "big"))
            o.append("  EcSig { key: %d, h: %d, msg: %s, rnd: %s, k: b\"\", sig: %s }," % (ki, h, rs(m), rs(rnd), rs(r.to_bytes(l, "big") + s.to_bytes(l, "big"))))
            # short r or s, high bits, for the DER form
    for kk in (1, 2, 3, n - 1, n - 2, n // 2, 2**(4*l), random.randrange(n), 0x5555):
        m = b"message to be signed"; h = [0, 1][c]
        e = int.from_bytes(hashlib.new(HN[h], m).digest()[:l], "big") % n
        r, s = ecsig(c, d, e, kk)
        o.append("  EcSig { key: %d, h: %d, msg: %s, rnd: b\"\", k: %s, sig: %s }," % (ki, h, rs(m), rs(kk.to_bytes(l, "big")), rs(r.to_bytes(l, "big") + s.to_bytes(l, "big"))))
# nonces that make r or s short
for c in (0, 1):
    n = EC[c][4]; l = EC[c][5]; m = b"message to be signed"; h = [0, 1][c]; ki = 2 + 4 * c; d = keys[ki][1]
    e = int.from_bytes(hashlib.new(HN[h], m).digest()[:l], "big") % n
    got = set(); k = 10; pt = ecmul(EC[c], k)
    while len(got) < 6:
        k += 1; pt = ecadd(EC[c], pt, (EC[c][2], EC[c][3])); r = pt[0] % n; s = pow(k, -1, n) * (e + r * d) % n
        for w, x in (("r", r), ("s", s)):
            w += "2" if x < 2**(8*l-16) else "1" if x < 2**(8*l-9) else "1h" if x < 2**(8*l-8) else ""
            if len(w) > 1 and w not in got:
                got.add(w)
                o.append("  EcSig { key: %d, h: %d, msg: %s, rnd: b\"\", k: %s, sig: %s }," % (ki, h, rs(m), rs(k.to_bytes(l, "big")), rs(r.to_bytes(l, "big") + s.to_bytes(l, "big"))))
o.append("];")
open("/verif/harness/src/vec_ed.rs", "w").write("\n".join(o) + "\n")
print(len(ver), sum(v[3] for v in ver), n)
