#!/usr/bin/env python3
"""edge-case vectors for P-256/P-384, from first principles (plain integer arithmetic). Writes harness/src/vec_ec.rs"""
import hashlib, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
class C: pass
P256 = C(); P256.name = "P256"; P256.L = 32
P256.p = 2**256 - 2**224 + 2**192 + 2**96 - 1
P256.n = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
P256.b = 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b
P256.G = (0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296, 0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5)
P384 = C(); P384.name = "P384"; P384.L = 48
P384.p = 2**384 - 2**128 - 2**96 + 2**32 - 1
P384.n = 0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973
P384.b = 0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef
P384.G = (0xaa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7, 0x3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f)
def inv(a, m): return pow(a, -1, m)
def add(c, P, Q):
    if P is None: return Q
    if Q is None: return P
    if P[0] == Q[0]:
        if (P[1] + Q[1]) % c.p == 0: return None
        l = (3 * P[0] * P[0] - 3) * inv(2 * P[1], c.p) % c.p
    else:
        l = (Q[1] - P[1]) * inv(Q[0] - P[0], c.p) % c.p
    x = (l * l - P[0] - Q[0]) % c.p
    return (x, (l * (P[0] - x) - P[1]) % c.p)
def mul(c, k, P):
    k %= c.n; R = None
    while k:
        if k & 1: R = add(c, R, P)
        P = add(c, P, P); k >>= 1
    return R
def neg(c, P): return (P[0], (-P[1]) % c.p)
def rhs(c, x): return (x**3 - 3 * x + c.b) % c.p
def lift(c, x):
    y = pow(rhs(c, x), (c.p + 1) // 4, c.p)
    return (x, y) if y * y % c.p == rhs(c, x) else None
def on(c, P): return (P[1] * P[1] - rhs(c, P[0])) % c.p == 0
def hz(c, h, m):
    d = hashlib.new(h, m).digest()[:c.L]
    return int.from_bytes(d, "big") % c.n
def verify(c, Q, e, r, s):
    if not (0 < r < c.n and 0 < s < c.n): return False
    w = inv(s, c.n)
    R = add(c, mul(c, e * w, c.G), mul(c, r * w, Q))
    return R is not None and R[0] % c.n == r
def pmulmod(c, a, b, f):  # polynomials mod cubic f (monic, low first)
    r = [0] * 5
    for i, x in enumerate(a):
        for j, y in enumerate(b): r[i + j] = (r[i + j] + x * y) % c.p
    for i in (4, 3):
        k = r[i]; r[i] = 0
        for j in range(3): r[i - 3 + j] = (r[i - 3 + j] - k * f[j]) % c.p
    return r[:3]
def trim(a):
    while a and a[-1] == 0: a.pop()
    return a
def pgcd(c, a, b):
    a, b = trim(a[:]), trim(b[:])
    while b:
        while len(a) >= len(b):
            k = a[-1] * inv(b[-1], c.p) % c.p; o = len(a) - len(b)
            for i, x in enumerate(b): a[o + i] = (a[o + i] - k * x) % c.p
            a = trim(a)
            if not a: break
        a, b = b, a
    return a
def root(c, y):
    f = [(c.b - y * y) % c.p, c.p - 3, 0]
    r, q, k = [1, 0, 0], [0, 1, 0], c.p
    while k:
        if k & 1: r = pmulmod(c, r, q, f)
        q = pmulmod(c, q, q, f); k >>= 1
    r[1] = (r[1] - 1) % c.p
    g = pgcd(c, f + [1], r)
    return (-g[0] * inv(g[1], c.p)) % c.p if len(g) == 2 else None
M = b"message to be signed"
out = ["// generated by tools/ecvec.py", "pub struct Sig { pub q: &'static [u8], pub r: &'static [u8], pub s: &'static [u8], pub ok: bool, pub what: &'static str }",
       "pub struct Pt { pub xy: &'static [u8], pub ok: bool, pub what: &'static str }"]
def hexb(b): return 'b"' + "".join("\\x%02x" % x for x in b) + '"'
for c, h in ((P256, "sha256"), (P384, "sha384"), (P384, "sha512"), (P256, "sha512"), (P384, "sha256")):
    fits = 1 << (8 * c.L)
    e = hz(c, h, M)
    I = lambda v: v.to_bytes(c.L, "big")
    U = lambda Q: b"\x04" + I(Q[0]) + I(Q[1])
    sigs = []
    def sig(Q, r, s, want, what):
        ok = verify(c, Q, e, r, s)
        assert ok == want, (c.name, what, ok)
        sigs.append((U(Q), I(r), I(s), ok, what))
    d = int.from_bytes(hashlib.sha512(b"key" + c.name.encode()).digest(), "big") % c.n
    k = int.from_bytes(hashlib.sha512(b"nonce" + c.name.encode()).digest(), "big") % c.n
    Q = mul(c, d, c.G); r = mul(c, k, c.G)[0] % c.n; s = (e + r * d) * inv(k, c.n) % c.n
    sig(Q, r, s, True, "ordinary")
    sig(Q, r, c.n - s, True, "negated s")
    sig(Q, c.n - r, s, False, "negated r")
    sig(Q, s, r, False, "swapped")
    sig(neg(c, Q), r, s, False, "negated key")
    for a in (0, 1, c.n - 1, c.n, c.n + 1, fits - 1):
        sig(Q, a, s, False, "r=%x" % a); sig(Q, r, a, False, "s=%x" % a); sig(Q, a, a, False, "r=s=%x" % a)
    # small r: R with x = r small
    x = 5
    while lift(c, x) is None: x += 1
    R = lift(c, x); s1 = 0x1234567
    Q1 = mul(c, inv(x * inv(s1, c.n) % c.n, c.n), add(c, R, neg(c, mul(c, e * inv(s1, c.n), c.G))))
    sig(Q1, x, s1, True, "small r"); sig(Q1, x + c.n, s1, False, "small r plus n"); sig(Q1, x, s1 + c.n, False, "small s plus n")
    # x(R) in [n, p): r = x - n
    x = c.n + 1
    while lift(c, x) is None: x += 1
    R = lift(c, x); r2 = x - c.n
    Q2 = mul(c, inv(r2 * inv(s, c.n) % c.n, c.n), add(c, R, neg(c, mul(c, e * inv(s, c.n), c.G))))
    sig(Q2, r2, s, True, "x(R) above n"); sig(Q2, x, s, False, "x(R) itself as r")
    # R = infinity
    for r3 in (r, e):
        d3 = (-e * inv(r3, c.n)) % c.n
        if d3: sig(mul(c, d3, c.G), r3, s, False, "R at infinity")
    # u1 G == u2 Q: doubling
    t = 7
    r4 = mul(c, 2 * t, c.G)[0] % c.n; d4 = e * inv(r4, c.n) % c.n
    sig(mul(c, d4, c.G), r4, e * inv(t, c.n) % c.n, True, "doubling")
    # special keys
    for dd, w in ((1, "key G"), (2, "key 2G"), (c.n - 1, "key -G"), ((c.n + 1) // 2, "key G/2")):
        ss = (e + r * dd) * inv(k, c.n) % c.n
        sig(mul(c, dd, c.G), r, ss, True, w)
    # special nonces
    for kk in (1, 2, 3, c.n - 1, c.n - 2, (c.n + 1) // 2, 16, 31, 32, 64, 127, 128, 1 << 200, (1 << 200) - 1):
        rr = mul(c, kk, c.G)[0] % c.n
        sig(Q, rr, (e + rr * d) * inv(kk, c.n) % c.n, True, "nonce %x" % kk)
    # u1 = e/s small/large, u2 small/large
    for u1, u2 in ((1, 1), (1, 2), (c.n - 1, 1), (1, c.n - 1), (c.n - 1, c.n - 1), (31, 17), (c.n - 17, 16), (2**200, 2**199), (64, c.n - 64), (128, 1)):
        ss = e * inv(u1, c.n) % c.n; rr_key = None
        # r = u2*s must equal x(u1 G + u2 Q): pick R with x = r
        rr = u2 * ss % c.n
        R = lift(c, rr)
        if R is None: continue
        QQ = mul(c, inv(u2, c.n), add(c, R, neg(c, mul(c, u1, c.G))))
        sig(QQ, rr, ss, True, "u1=%x u2=%x" % (u1, u2))
    out.append("pub static SIG_%s_%s: &[Sig] = &[" % (c.name, h.upper()))
    for q, rb, sb, ok, w in sigs:
        out.append('  Sig { q: %s, r: %s, s: %s, ok: %s, what: "%s" },' % (hexb(q), hexb(rb), hexb(sb), str(ok).lower(), w))
    out.append("];")
for c in (P256, P384):
    fits = 1 << (8 * c.L)
    I = lambda v: v.to_bytes(c.L, "big")
    pts = []
    def pt(x, y, want, what):
        ok = x < c.p and y < c.p and on(c, (x, y))
        assert ok == want, (c.name, what)
        pts.append((I(x) + I(y), ok, what))
    for k in (1, 2, 3, c.n - 1, 12345):
        pt(*mul(c, k, c.G), True, "%x G" % k)
    x = 5
    while lift(c, x) is None: x += 1
    P = lift(c, x)
    pt(*P, True, "small x"); pt(x + c.p, P[1], False, "x plus p"); pt(x, c.p - P[1], True, "small x, negated")
    y = 2
    while root(c, y) is None: y += 1
    x = root(c, y)
    pt(x, y, True, "small y"); pt(x, y + c.p, False, "y plus p"); pt(x, c.p - y, True, "-small y")
    Z = lift(c, 0)
    if Z: pt(0, Z[1], True, "x = 0"); pt(c.p, Z[1], False, "x = p")
    g = c.G
    for a, b, w in ((0, 0, "origin"), (0, 1, "(0,1)"), (1, 0, "(1,0)"), (g[0], (g[1] + 1) % c.p, "y+1"), (g[1], g[0], "swapped"), (g[0] ^ 1, g[1], "x^1"),
                    (c.p - 1, c.p - 1, "p-1"), (c.p, c.p, "p"), (fits - 1, fits - 1, "all ones"), (g[0], g[1] ^ (1 << (8 * c.L - 1)), "top bit of y"),
                    (g[0] ^ (1 << 64), g[1], "x bit 64"), (g[0], 0, "y=0"), (g[0], c.p, "y=p"), (0, c.p, "(0,p)"), (c.p, 0, "(p,0)")):
        pt(a, b, False, w)
    # points on curves with other b (invalid curve attack)
    for db in (1, 2, 5):
        cc = C(); cc.__dict__.update(c.__dict__); cc.b = (c.b + db) % c.p
        x = 3
        while lift(cc, x) is None: x += 1
        pt(*lift(cc, x), False, "b+%d" % db)
    # ax omitted / a = 3
    out.append("pub static PTS_%s: &[Pt] = &[" % c.name)
    for b, ok, w in pts:
        out.append('  Pt { xy: %s, ok: %s, what: "%s" },' % (hexb(b), str(ok).lower(), w))
    out.append("];")
    out.append("pub static N_%s: &[u8] = %s;" % (c.name, hexb(I(c.n))))
    out.append("pub static P_%s: &[u8] = %s;" % (c.name, hexb(I(c.p))))
    # scalar multiples: k, kG
    ks = [1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 1 << 100, (1 << 128) - 1, c.n - 1, c.n - 2, c.n - 3, c.n - 15, c.n - 16, c.n - 17, c.n - 31, c.n - 32, c.n - 33, c.n - 64, c.n - 127, c.n - 128, (c.n - 1) // 2, (c.n + 1) // 2, c.n >> 5, c.n >> 7, int.from_bytes(hashlib.sha512(b"z").digest(), "big") % c.n]
    out.append("pub static MUL_%s: &[(&[u8], &[u8])] = &[" % c.name)
    for k in ks:
        Q = mul(c, k, c.G)
        out.append("  (%s, %s)," % (hexb(I(k)), hexb(I(Q[0]) + I(Q[1]))))
    out.append("];")
for c in (P256, P384):
    I = lambda v: v.to_bytes(c.L, "big")
    ks = [1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 1 << 100, (1 << 128) - 1, c.n - 1, c.n - 2, c.n - 3, c.n - 15, c.n - 16, c.n - 17, c.n - 31, c.n - 32, c.n - 33, c.n - 64, c.n - 127, c.n - 128, (c.n - 1) // 2, (c.n + 1) // 2, c.n >> 5, c.n >> 7, int.from_bytes(hashlib.sha512(b"z").digest(), "big") % c.n]
    out.append("pub static DH_%s: &[(&[u8], &[u8], &[u8])] = &[" % c.name)
    for i, k in enumerate(ks):
        q = [1, 12345, c.n - 1, 2][i % 4]
        P = mul(c, q, c.G); R = mul(c, k * q, c.G)
        out.append("  (%s, %s, %s)," % (hexb(I(k)), hexb(I(P[0]) + I(P[1])), hexb(I(R[0]))))
    out.append("];")
open(H + "/harness/src/vec_ec.rs", "w").write("\n".join(out) + "\n")
