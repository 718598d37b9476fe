"""Which harness entries, with which parameters, decide each property.

PROPS[id] = dict(jobs=[...], bounds=text, assumptions=[...]).
A job: j(entry, params...)  with options nofeat= (CPU features masked), t= (seconds),
reach= (markers that must be reached), tier= "q" (quick and thorough) or "t" (thorough only).
"""

ASSUMPTIONS = [
    "The code judged is the x86-64 machine code rustc (stable toolchain of the sandbox, opt-level 2) makes of /repo; "
    "instruction semantics are those of /verif/symex, validated on every run by native re-execution of witness inputs.",
    "aarch64 code is out of scope (no such target here).",
    "The reference algorithms in /verif/harness/src/refs.rs are the specification; they are independent implementations "
    "of the published standards, checked against published vectors by /verif/harness (entry h_refs).",
]


def j(entry, *p, nofeat=None, t=120, tier="q", **kw):
    return dict(entry=entry, p=list(p), nofeat=nofeat, t=t, tier=tier, **kw)


def expand(prop, tier):
    out = []
    seen = set()
    for x in PROPS[prop]["jobs"]:
        if tier == "quick" and x["tier"] != "q":
            continue
        n = x["entry"] + "_" + "_".join(map(str, x["p"])) + ("_" + x["nofeat"].replace(",", "_") if x.get("nofeat") else "")
        if n in seen:
            continue
        seen.add(n)
        out.append(dict(x, name=n))
    return out


PROPS = {}
KEYBITS = [2048, 2048, 2050, 2056, 3072, 4095, 2048, 4096, 2049, 8192, 2048, 6000]

# ---------------------------------------------------------------- C01 / C02 AES-GCM
gcm_lens_q = [0, 1, 15, 16, 17, 32, 47, 64, 100, 127, 128, 129, 144, 200, 255, 256, 257, 272]
gcm_aads_q = [0, 1, 13, 16, 20]
GCM_NO = "vaes,vpclmulqdq,avx512f,avx512bw,avx512vl"
g = []
for i, n in enumerate(gcm_lens_q):
    g.append(j("h_gcm_enc", [16, 32][i % 2], gcm_aads_q[i % 5], n, 0))
    g.append(j("h_gcm_enc", [32, 16][i % 2], gcm_aads_q[(i + 2) % 5], n, 3, nofeat=GCM_NO))
for a in [127, 128, 129, 160]:
    g.append(j("h_gcm_enc", 16, a, 5, 4))
    g.append(j("h_gcm_enc", 32, a, 0, 4, nofeat=GCM_NO))
for n in range(0, 700, 7):
    g.append(j("h_gcm_enc", [16, 32][n % 2], n % 37, n, n % 9, tier="t", t=300))
    g.append(j("h_gcm_enc", [32, 16][n % 2], n % 41, n, n % 9, tier="t", t=300, nofeat=GCM_NO))
for k, (a, n, lg) in enumerate([(0, 4100, 1), (1, 4096, 2), (20, 8230, 2), (8230, 20, 2), (3, 16384, 2), (5, 66000, 2), (66000, 5, 2), (0, 5000, 2), (300, 900, 2), (700, 33, 1), (33, 700, 1)]):
    g.append(j("h_gcm_enc", [16, 32][k % 2], a, n, 0, lg, t=200))
    g.append(j("h_gcm_enc", [32, 16][k % 2], a, n, 5, lg, t=200, nofeat=GCM_NO))
for n in range(0, 274):
    g.append(j("h_gcm_enc", [16, 32][n // 2 % 2], (n * 5 + 7) % 34, n, 0, 2 if n > 64 else 0, nofeat=GCM_NO if n % 2 else None))
    if n < 145:
        g.append(j("h_gcm_enc", [32, 16][n // 2 % 2], (n * 3 + 2) % 34, n, 0, 2 if n > 40 else 0, nofeat=None if n % 2 else GCM_NO))
for k in range(1, 9):
    g.append(j("h_gcm_enc", [16, 32][k % 2], 4, 18, k))
PROPS["C01"] = dict(jobs=g, bounds="Symbolic: all nonces, all AAD bytes, all plaintext bytes. Concrete: a few keys of both "
                    "sizes; lengths as listed; both CPU paths (VAES/AVX-512 and AES-NI).")
g = []
for i, n in enumerate([0, 1, 16, 17, 40, 64, 128, 129, 200, 256, 300]):
    g.append(j("h_gcm_dec", [16, 32][i % 2], gcm_aads_q[i % 5], n, 0, 16, reach=[1, 2]))
    g.append(j("h_gcm_dec", [32, 16][i % 2], gcm_aads_q[i % 5], n, 3, 16, reach=[1, 2], nofeat=GCM_NO))
for tl in [0, 1, 8, 12, 15, 17, 32]:
    g.append(j("h_gcm_dec", 16, 3, 20, 0, tl, reach=[2]))
for n in range(0, 600, 9):
    g.append(j("h_gcm_dec", [16, 32][n % 2], n % 37, n, n % 9, 16, tier="t", t=300, reach=[1, 2]))
    g.append(j("h_gcm_dec", [32, 16][n % 2], n % 37, n, n % 9, 16, tier="t", t=300, reach=[1, 2], nofeat=GCM_NO))
for k, (a, n) in enumerate([(0, 4096), (20, 8230), (8230, 20), (5, 66000), (66000, 5), (300, 900)]):
    g.append(j("h_gcm_dec", [16, 32][k % 2], a, n, 0, 16, 2, t=200, reach=[1, 2]))
    g.append(j("h_gcm_dec", [32, 16][k % 2], a, n, 5, 16, 2, t=200, reach=[1, 2], nofeat=GCM_NO))
PROPS["C02"] = dict(jobs=g, bounds="Symbolic: all nonces, AAD, ciphertexts and offered tags (right tag XOR a free difference). "
                    "Concrete: keys, lengths, tag lengths 0,1,8,12,15,16,17,32.")

# ---------------------------------------------------------------- C03 / C04 ChaCha20-Poly1305
cl = [0, 1, 5, 15, 16, 17, 63, 64, 65, 100, 127, 128, 129, 191, 192, 193, 255, 256, 257, 300, 511, 512, 513, 640, 1030]
CC_NO = "avx512f,avx512bw,avx512vl"
g = []
for i, n in enumerate(cl):
    g.append(j("h_chacha_enc", [0, 1, 12, 16, 17, 33][i % 6], n, 0))
    g.append(j("h_chacha_enc", [5, 0, 16, 13, 40][i % 5], n, 1, nofeat=CC_NO))
for n in range(0, 1500, 11):
    g.append(j("h_chacha_enc", n % 53, n, n % 2, tier="t"))
    g.append(j("h_chacha_enc", n % 53, n, (n + 1) % 2, tier="t", nofeat=CC_NO))
for n in range(0, 530):
    g.append(j("h_chacha_enc", (n * 5 + 7) % 34, n, n // 2 % 2, nofeat=CC_NO if n % 2 else None))
for k, (a, n, lg) in enumerate([(0, 4100, 1), (20, 16500, 1), (8230, 20, 1), (66000, 5, 2), (3, 66000, 2), (300, 2100, 0)]):
    for x in (0, 1):
        g.append(j("h_chacha_enc", a, n, x, lg, t=200, nofeat=CC_NO if k % 2 == x else None))
PROPS["C03"] = dict(jobs=g, bounds="Symbolic: all keys, nonces, AAD and plaintext bytes. Lengths as listed (quick up to 1030 bytes).")
g = []
for i, n in enumerate([0, 1, 16, 17, 40, 64, 128, 129, 256, 300, 520]):
    g.append(j("h_chacha_dec", [0, 1, 12, 16, 17, 33][i % 6], n, i % 2, 16, reach=[1, 2]))
    g.append(j("h_chacha_dec", [0, 1, 12, 16, 17, 33][i % 6], n, 1 - i % 2, 16, reach=[1, 2], nofeat=CC_NO))
for tl in [0, 1, 8, 12, 15, 17, 32]:
    g.append(j("h_chacha_dec", 3, 20, tl % 2, tl, reach=[2]))
    g.append(j("h_chacha_dec", 3, 20, 1 - tl % 2, tl, reach=[2]))
for n in range(0, 1100, 13):
    g.append(j("h_chacha_dec", n % 37, n, n % 2, 16, tier="t", reach=[1, 2]))
    g.append(j("h_chacha_dec", n % 37, n, (n + 1) % 2, 16, tier="t", reach=[1, 2], nofeat=CC_NO))
for k, (a, n, lg) in enumerate([(0, 4100, 1), (20, 16500, 1), (8230, 20, 1), (66000, 5, 2), (3, 66000, 2), (300, 2100, 0)]):
    g.append(j("h_chacha_dec", a, n, k % 2, 16, lg, t=200, reach=[1, 2]))
PROPS["C04"] = dict(jobs=g, bounds="Symbolic: all keys, nonces, AAD, ciphertexts, offered tags. Lengths as listed.")

# ---------------------------------------------------------------- C05 SHA-2
g = []
SHA_NO = "sha,bmi2,bmi1"
for e, bl in (("h_sha256", 64), ("h_sha384", 128), ("h_sha512", 128)):
    for k, n in enumerate([0, 1, bl - 17, bl - 9, bl - 8, bl - 1, bl, bl + 1, 2 * bl - 9, 2 * bl, 2 * bl + 7, 4 * bl + 3]):
        s1 = [0, 1, n // 2, n, min(n, bl), max(0, n - 1)][k % 6]
        g.append(j(e, n, s1, min(n, s1 + [0, 1, bl, bl - 1][k % 4])))
        g.append(j(e, n, min(n, 3), min(n, 3 + bl), nofeat=SHA_NO))
    for n in range(0, 6 * bl, 5):
        g.append(j(e, n, n * 7 % (n + 1), n * 5 % (n + 1), tier="t"))
        g.append(j(e, n, n * 3 % (n + 1), n * 11 % (n + 1), tier="t", nofeat=SHA_NO))
        g.append(j(e, n, n * 3 % (n + 1), n * 11 % (n + 1), tier="t", nofeat="sha"))
    for n in range(0, 2 * bl + 2):
        g.append(j(e, n, n * 7 % (n + 1), n * 5 % (n + 1), nofeat=[None, SHA_NO, "sha"][n % 3]))
for n, a, b in [(200, 64, 128), (130, 63, 64), (130, 1, 2), (192, 64, 64)]:
    g.append(j("h_sha256", n, a, b))
for n, a, b in [(400, 128, 256), (260, 127, 128), (260, 1, 2), (384, 128, 128)]:
    g.append(j("h_sha512", n, a, b))
g.append(j("h_sha256", 9000, 100, 4000, t=200))
g.append(j("h_sha512", 9000, 100, 4000, t=200))
g.append(j("h_sha384", 9000, 127, 8300, t=200))
PROPS["C05"] = dict(jobs=g, bounds="Symbolic: every message byte. Lengths and chunk boundaries as listed; SHA-NI, BMI2 and generic code paths.")

# ---------------------------------------------------------------- C06 SHA-3
g = []
for e, r in (("h_sha3_256", 136), ("h_sha3_512", 72)):
    for k, n in enumerate([40, 64, r - 1, r, r + 1, 2 * r - 1, 2 * r, 2 * r + 5, 3 * r + 1]):
        s1 = [0, 1, n // 2, n, min(n, r), n - 1][k % 6]
        g.append(j(e, n, s1, min(n, s1 + [0, 1, r, r - 1][k % 4]), extra=["--anf"]))
    for n in range(40, 5 * r, 3):
        g.append(j(e, n, n * 7 % (n + 1), n * 5 % (n + 1), tier="t", extra=["--anf"]))
    for n in [0, 1, 3, 5, 8]:
        g.append(j(e, n, n // 2, n, extra=["--anf"], t=150, tier="q" if n in (0, 5) else "t"))
for e, r in (("h_shake128", 168), ("h_shake256", 136)):
    for k, n in enumerate([40, 60, r - 1, r, r + 1, 2 * r]):
        for rd in [(1, 31, 0), (r, 1, 5), (r - 1, 2, r), (7, 2 * r, 3), (0, 3 * r + 1, 1)][k % 5:k % 5 + 2]:
            g.append(j(e, n, n // 3, *rd, extra=["--anf"]))
    for n in range(40, 4 * r, 17):
        g.append(j(e, n, n // 2, n % (2 * r), n * 7 % (2 * r), 5, tier="t", extra=["--anf"]))
PROPS["C06"] = dict(jobs=g, bounds="Symbolic: every message byte. Lengths, chunk boundaries and read sizes as listed.")

# ---------------------------------------------------------------- C07 HMAC and tag comparison
g = []
for e, bl, dl in (("h_hmac256", 64, 32), ("h_hmac384", 128, 48), ("h_hmac512", 128, 64)):
    for k, kl in enumerate([0, 1, 20, bl - 1, bl, bl + 1, 2 * bl + 3]):
        ml = [0, 1, bl - 9, bl, 2 * bl, 50, 7][k]
        g.append(j(e, kl, ml, ml // 2, [dl, dl, dl - 1, dl, dl + 1, dl, 0][k]))
    for kl in range(0, 3 * bl, 11):
        g.append(j(e, kl, kl * 3 % 200, kl % 7 if kl * 3 % 200 > 7 else 0, [dl, dl // 2, dl][kl % 3], tier="t"))
for a in range(3):
    for b in range(3):
        g.append(j("h_hashout", a, b, 0, reach=[0] + ([1] if a == b else [])))
    sz = [32, 48, 64][a]
    for n in [0, 1, 16, sz - 1, sz, sz + 1, 65]:
        g.append(j("h_hashout", a, n, 1, reach=[0] + ([1] if n == sz else [])))
    for n in [0, 1, 8, 16, 31, 32, 33]:
        g.append(j("h_hashout", a, n, 2, reach=[1]))
PROPS["C07"] = dict(jobs=g, bounds="Symbolic: keys, messages, offered tags. Lengths as listed.")

# ---------------------------------------------------------------- C08 ECDSA verification
g = []
for c, hs, n, step in ((0, (0, 2), 60, 60), (1, (0, 1, 2), 60, 15)):
    for hh in hs:
        for lo in range(0, n, step):
            g.append(j("h_ecdsa_edge", c, hh, lo, min(n, lo + step), t=200))
for c in (0, 1):
    g += [j("h_ecdsa_range", c, 0, reach=[1]), j("h_ecdsa_range", c, 1, reach=[1])]
    fl = [64, 96][c]
    for n in (0, 1, fl - 1, fl + 1, fl + 2, 2 * fl, fl // 2, [96, 64][c]):
        g.append(j("h_ecdsa_badlen", c, n, 0))
    for n in range(0, 8):
        g.append(j("h_ecdsa_badlen", c, n, 1))
    for v in (0, 1, 2, 3):
        for parts, a, b, tr, ins in ((1, 0, 0, 0, 0), (2, 0, 0, 0, 0), (4, 0, 0, 0, 0), (0, 1, 0, 0, 0), (0, 0, 1, 0, 0),
                                     (0, 2, 0, 0, 0), (0, 0, 2, 0, 0), (0, 0, 0, 1, 0), (0, 0, 0, 1, 1), (0, 0, 0, 3, 0), (0, 0, 0, 2, 1), (7, 1, 1, 1, 0)):
            g.append(j("h_ecdsa_der", c, v, parts, a, b, tr, ins, tier="q" if v < 2 or c == 0 else "t"))
PROPS["C08"] = dict(jobs=g, bounds="Symbolic: r, s (every value outside [1, n-1]), header and padding and trailing bytes of the DER form, all bytes of "
    "wrong-length signatures. The signature equation itself: solver-chosen selection from tables of about 50 constructed edge cases per curve and hash "
    "(u1 or u2 zero or one, exceptional additions, R.x >= n, aliases), computed concretely by the real code.")

# ---------------------------------------------------------------- C10 EC public keys, ECDH
g = []
for c in (0, 1):
    g += [j("h_ec_point", c, 0, 64), j("h_ec_point_range", c)]
    fl = [65, 97][c]
    for n in [0, 1, 2, 32, 33, 49, fl - 2, fl - 1, fl + 1, fl + 2, 2 * fl, [97, 65][c]]:
        g.append(j("h_ec_point_len", c, n))
    for n in range(0, 200):
        if n != fl:
            g.append(j("h_ec_point_len", c, n, tier="t"))
    for lo in range(0, 38, 10):
        g.append(j("h_ecdh_edge", c, lo, min(38, lo + 10), t=200))
PROPS["C10"] = dict(jobs=g, bounds="Symbolic: every coordinate pair with a coordinate of p or more, the format byte, all bytes of wrong lengths. Curve equation and "
    "scalar multiplication: solver-chosen selection from constructed points and edge scalars, computed concretely by the real code.")

# ---------------------------------------------------------------- C11 EC private keys
g = []
for c in (0, 1):
    fl = [32, 48][c]
    for n in [0, 1, 2, 8, 16, 20, fl - 1, fl, fl + 1, fl + 2, fl + 8, fl + 40]:
        g.append(j("h_ec_scalar", c, n, t=200))
    for n in range(0, 2 * fl):
        g.append(j("h_ec_scalar", c, n, t=200, tier="t"))
PROPS["C11"] = dict(jobs=g, bounds="Symbolic: every byte of the offered scalar; lengths as listed.")

# ---------------------------------------------------------------- C14 RSA verification
NOHOOK = ["If the hooks (cfg graviola_verif) do not compile, the entries that need them decide nothing and say so."]
g = []
for k, hh in ((0, 0), (0, 1), (0, 2), (1, 0), (2, 1), (3, 2), (4, 0), (5, 1), (8, 0), (8, 2), (10, 1)):
    g.append(j("h_rsa_pkcs1", k, hh, 1000 + 11 * k + 9, 0, 0, t=200, reach=[1, 2]))
for k, hh in ((9, 0), (11, 2), (7, 1)):
    g.append(j("h_rsa_pkcs1", k, hh, 1020, 0, 0, t=300, tier="t", reach=[1, 2]))
    for at in (1, 700 if k != 7 else 400):
        g.append(j("h_rsa_pkcs1", k, hh, 1020, at, 60, t=200, reach=[1, 2]))
for k, hh in ((0, 0), (0, 1), (0, 2), (2, 1), (3, 2), (4, 2), (5, 0), (8, 0), (8, 1)):
    for parts in (1, 2, 4, 8, 9, 16):
        if parts == 8 and (k in (8,) or KEYBITS[k] % 8 == 1):
            continue
        g.append(j("h_rsa_pss", k, hh, 1009, parts, t=200, reach=[1] if parts == 16 else [1, 2],
                   tier="q" if parts in (1, 4, 8, 16) or (k in (0, 2) and hh < 2) else "t"))
g.append(j("h_rsa_pss", 0, 0, 20, 0, reach=[1], t=200))
g.append(j("h_rsa_pss", 5, 2, 20, 0, reach=[1], t=200))
for k in (0, 2, 3, 5, 8):
    L = (KEYBITS[k] + 7) // 8
    for pss in (0, 1):
        g.append(j("h_rsa_siglen", k, pss, L, 0, reach=[1, 2], t=200))
        g.append(j("h_rsa_siglen", k, pss, L, 1, reach=[1], t=200))
        g.append(j("h_rsa_siglen", k, pss, L, 9, reach=[1], t=200))
        for n, z in ((0, 0), (1, 0), (L - 1, 0), (L - 8, 0), (L + 1, 0), (L + 1, 1), (L + 8, 8), (L + 8, 0), (2 * L, L), (1200, 1200 - L)):
            g.append(j("h_rsa_siglen", k, pss, n, z, reach=[2], t=200))
for k in range(9):
    for lo in range(0, 6, 2 if k in (4, 5, 7) else 6):
        g.append(j("h_rsa_vec", k, lo, lo + (2 if k in (4, 5, 7) else 6), t=200, reach=[1]))
PROPS["C14"] = dict(jobs=g, assumptions=NOHOOK, bounds="Symbolic: every value the public operation can return (through an observation hook that replaces its result), in "
    "particular all padding, digest, salt, hash and trailer bytes; all signature bytes for right and wrong lengths. Moduli of 2048, 2049, 2050, 2056, 3072, 4095, 4096, 6000, "
    "8192 bits. The exponentiation itself: concretely, on true signatures and solver-chosen variations of them.")

# ---------------------------------------------------------------- C15 RSA signing
g = []
for k, hh, pss in ((0, 0, 0), (0, 1, 1), (1, 2, 0), (1, 0, 1), (2, 1, 0), (2, 2, 1), (3, 0, 0), (3, 0, 1), (5, 1, 0), (5, 0, 1), (8, 2, 0), (8, 1, 1), (4, 2, 1), (0, 2, 0), (0, 0, 1)):
    g.append(j("h_rsa_sign_em", k, hh, pss, 20 + k, 1, t=200, reach=[1]))
    g.append(j("h_rsa_sign_em", k, hh, pss, 1003, 0, t=200, reach=[2]))
    g.append(j("h_rsa_sign_em", k, hh, pss, 3, 9, t=200, reach=[1], tier="q" if k < 3 else "t"))
    g.append(j("h_rsa_sign_fault", k, hh, pss, t=200, reach=[1, 2]))
for k in range(9):
    g.append(j("h_rsa_sign_vec", k, 0, 6, t=200, reach=[1]))
for k in (0, 1):
    for w in range(6):
        g.append(j("h_rsa_badkey", k, w, w + 1, t=200))
for k in (2, 4):
    g.append(j("h_rsa_badkey", k, 0, 6, t=400, tier="t"))
PROPS["C15"] = dict(jobs=g, assumptions=NOHOOK, bounds="Symbolic: message bytes, salt bytes, every result of the private operation, every (also faulty) result of the check of it "
    "(both through observation hooks). Keys of 2048 (both orders of the primes), 2049, 2050, 2056, 3072, 4095, 4096 bits; the exponentiation itself concretely against "
    "independently computed signatures; damaged keys: solver-chosen from 54 kinds each. For PSS, encodings with a zero first byte are left out of the symbolic jobs.")

# ---------------------------------------------------------------- C09 ECDSA signing
g = []
for c in (0, 1):
    for hh in range(3):
        for n, cut in ((20, 7), (0, 0), (200, 128)):
            g.append(j("h_ecdsa_nonce", c, hh, n, cut, n & 1 if n < 100 else 1, reach=[1], t=200, tier="q" if n == 20 or c == hh else "t"))
    for bad in (1, 2, 3, 63, 64, 70):
        g.append(j("h_ecdsa_retry", c, bad, bad & 1, reach=[[1], [2], [1, 2]][2 if bad == 63 else bad >= 64][:1], t=200))
    g.append(j("h_ecdsa_norng", c, 0, reach=[1]))
    g.append(j("h_ecdsa_norng", c, 2, reach=[1]))
for lo in range(0, 132, 6):
    g.append(j("h_ecdsa_sign_vec", lo, lo + 6, reach=[1, 2], t=200))
PROPS["C09"] = dict(jobs=g, assumptions=NOHOOK, bounds="Symbolic: private key, message, random bytes, and the hash function itself (an arbitrary function of the shape of SHA-256, "
    "SHA-384, SHA-512); every unusable generator output (first and last of up to 70). Nonce generation and its inputs are seen through an observation hook. Messages of 0, 20, 200 bytes. "
    "The group operation: solver-chosen selection from 132 signatures computed independently (edge nonces and keys, short r and s).")

# ---------------------------------------------------------------- C12 X25519
g = []
for lo in range(0, 60, 10):
    g.append(j("h_x25519", lo, lo + 10, 0, reach=[], t=200))
    g.append(j("h_x25519", lo, lo + 10, 1, reach=[], t=200))
for lo in range(0, 24, 8):
    g.append(j("h_x25519_base", lo, lo + 8, reach=[1], t=200))
for n in (0, 1, 8, 16, 31, 32, 33, 40, 56, 64):
    g.append(j("h_x25519_len", n, reach=[1 if n == 32 else 2]))
PROPS["C12"] = dict(jobs=g, bounds="Symbolic: the clamped bits of the private key and the top bit of the public key, all bytes of imported keys, fresh random bytes. The Montgomery ladder: "
    "solver-chosen selection from 60 pairs (edge scalars, small-order, non-canonical, near-p coordinates) and 24 base point multiples with independently computed results.")

# ---------------------------------------------------------------- C13 Ed25519
g = []
for lo in range(0, 24, 6):
    g.append(j("h_ed_sign", lo, lo + 6, reach=[1], t=200))
for lo in range(0, 575, 72):
    g.append(j("h_ed_verify", lo, lo + 72, reach=[1], t=200))
for row in (1, 2, 7):
    for lo in range(0, 100, 4):
        g.append(j("h_ed_flip", row, lo, lo + 4, t=200, tier="q" if row == 2 else "t"))
for row in (0, 2, 3):
    for n in (0, 3, 64, 200):
        g.append(j("h_ed_range", row, n, reach=[1]))
for n in (0, 1, 32, 63, 65, 66, 96, 128):
    g.append(j("h_ed_len", n, 0, reach=[1]))
for n in (0, 1, 31, 33, 34, 64):
    g += [j("h_ed_len", n, 1, reach=[1]), j("h_ed_len", n, 2, reach=[1])]
for lo in range(0, 127, 32):
    g.append(j("h_ed_point", lo, lo + 32, reach=[1], t=200))
PROPS["C13"] = dict(jobs=g, bounds="Symbolic: every signature with S >= L, R and message arbitrary; all bytes of wrong-length keys and signatures. The group operation: solver-chosen selection "
    "from 575 constructed (key, message, signature) triples (small-order, mixed-order, non-canonical, malleated), 127 point encodings, 24 signatures, and every single-bit change of "
    "valid signatures, keys and the start of messages, with independently computed verdicts.")

# ---------------------------------------------------------------- C16 key encodings
g = []
def rng_(a, b, k):
    return [(x, min(x + k, b)) for x in range(a, b, k)]
ROW = {2: (0, 1, 2), 3: (4, 5, 6)}
SIZE = {0: 83, 1: 44, 2: 121, 3: 167, 4: 138, 5: 185, 6: 270, 7: 1193, 8: 1219}   # of row ROWS[f][0]
for f in range(9):
    rows = [(1, 2, 5), (1, 2, 5), (1, 0, 2), (5, 4, 6), (1, 0, 2), (5, 4, 6), (0, 6, 4), (0, 6, 4), (0, 6, 4)][f]
    variants = [(0, 1), (0,), (0, 1, 2, 3), (0, 1, 2, 3), (0, 1, 2, 3), (0, 1, 2, 3), (0,), (0,), (0,)][f]
    for r in rows:
        for v in variants:
            g.append(j("h_der_good", f, r, v, reach=[1], t=200))
    r = rows[0]
    top = SIZE[f]
    # structure bytes: every value; opaque values: every bit
    for v in variants:
        hi = 290 if f == 7 else 320 if f == 8 else top
        for a, b in rng_(0, hi, 16 if f < 6 else 8):
            first = v == variants[0]
            lean = f in (7, 8) and a > 48 and not (264 <= a + 8 and a <= 272) or f == 6 and 16 <= a < 256
            g.append(j("h_der_byte", f, r, v, a, b, t=300, reach=[], tier="q" if (first or f in (0, 2)) and not lean else "t"))
    if f in (7, 8):
        for a, b in rng_(320, top, 16):
            g.append(j("h_der_byte", f, r, 0, a, b, t=600, reach=[], tier="t"))
    for a, b in rng_(0, top, 48):
        g.append(j("h_der_short", f, r, a, b, reach=[1], t=200))
    for a, b in rng_(0, top, 48):
        small = f < 7 or a in (0, 240, 528, 1152)
        g.append(j("h_der_small", f, r, a, b, reach=[1], t=200, tier="q" if small else "t"))
    for v in variants:
        for place in range(7):
            for n in (1, 2, 4):
                used = {1: (0, 1, 2, 5, 6), 6: (0, 1, 5, 6), 7: (0, 5, 6), 8: (0, 1, 2, 3, 4, 5, 6), 0: (0, 1, 2, 3, 4, 5, 6)}.get(f, (0, 1, 2, 3, 4, 5, 6))
                if place in used:
                    g.append(j("h_der_extra", f, r, v, place, n, reach=[], t=200, tier="q" if v == variants[0] and n == 2 or n == 4 and f in (0, 2) else "t"))
    for n in (0, 1, 2, 3, 5, 8, 12):
        g.append(j("h_der_any", f, n, reach=[1, 2] if f in (2, 3) and n in (8, 12) else [1], t=200))
    for h in range(9):
        g.append(j("h_der_cross", f, r, 0, h, reach=[1]))
PROPS["C16"] = dict(jobs=g, bounds="Documents: PKCS#8, SEC1, PKCS#1 and SPKI forms of 3 keys per algorithm, all variants of optional fields. Symbolic: every value of each single byte of the structure "
    "(tags, lengths, versions, identifiers, public halves), every single bit of opaque values, 1-4 arbitrary bytes inserted at each field boundary and nesting level, all strings up to 12 bytes. "
    "Every truncation; every output size below the encoding's. Acceptance is compared with a strict DER reader written for this check. RSA values are looked at bit by bit only near the "
    "field boundaries in the quick check. Not covered: two or more simultaneous changes, structures above 65535 bytes.")

# ---------------------------------------------------------------- C19 TLS records and secrets
g = []
for s in range(9):
    v12 = s >= 3
    for i, n in enumerate((0, 1, 16, 37, 100, 255)):
        for ty in ((i + s) % 4, 3):
            ver = (1,) if v12 and i == 3 and ty == 3 else (0,)
            tier = "q" if i < 4 and (ty != 3 or i == 3) else "t"
            g.append(j("h_tls12_enc" if v12 else "h_tls13_enc", s, n, ty, n // 3, *(ver if v12 else ()), reach=[1], t=200, tier=tier))
            if v12:
                g.append(j("h_tls12_dec", s, n, ty, 0, *ver, reach=[1, 2], t=200, tier=tier))
            else:
                g.append(j("h_tls13_dec", s, n, ty, (0, 1, 0, 3, 0, 16)[i], reach=[1, 2], t=200, tier=tier))
    for n in (16384, 16385):
        if v12:
            g.append(j("h_tls12_dec", s, n, 3, 0, 0, reach=[1 if n == 16384 else 2]))
        else:
            g.append(j("h_tls13_dec", s, n, 3, 0, reach=[1 if n == 16384 else 2]))
    if not v12:
        g.append(j("h_tls13_dec", s, 16380, 3, 5, reach=[2]))
    g.append(j("h_tls12_enc" if v12 else "h_tls13_enc", s, 16384, 3, 77, *((0,) if v12 else ()), reach=[1]))
    gcm12 = v12 and s not in (5, 8)
    for n in (0, 7, 8, 15, 16, 20, 23):
        if n < 16 or gcm12:
            g.append(j("h_tls_short", s, n, reach=[1]))
    g.append(j("h_tls_suite", s, reach=[1]))
    for n, k in ((0, 0), (40, 20), (70, 64), (130, 65), (9, 140)):
        g.append(j("h_tls_hash", s, n, k, reach=[1], t=200, tier="q" if s in (0, 1, 3, 4) and n in (40, 130) else "t"))
PROPS["C19"] = dict(jobs=g, bounds="All 9 cipher suites. Symbolic: keys, IVs, sequence numbers, the whole plaintext (hence every ciphertext) and every tag, at record lengths 0, 1, 16, 37 (and 100, 255 in the "
    "thorough check), fragmented in two or not; every byte of records too short for a tag; all inputs of hash, HMAC, HKDF, PRF up to 140 bytes. Record size limit: concrete data of 16384 and "
    "16385 bytes. The AEAD in the oracle is graviola's own public API, whose correctness is C01 to C03.")

NOT_APPLICABLE = {}
HOOKS = dict(guard="cfg graviola_verif", enable="RUSTFLAGS --cfg graviola_verif (harness/build.sh)",
             source_commits=["b3d2eec", "f420d93"])
