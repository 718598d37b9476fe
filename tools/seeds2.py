import re, hashlib
_s = open("/verif/harness/src/vec_rsa.rs").read()
_e = open("/verif/harness/src/vec_ec.rs").read()
def _b(x): return bytes.fromhex(x.replace("\\x", ""))
_keys = []
for m in re.finditer(r'RsaKey \{ n: b"([^"]*)", bits: (\d+), e: (\d+), priv_der: b"([^"]*)", pub_der: b"([^"]*)", p: b"([^"]*)", q: b"([^"]*)", d: b"([^"]*)", dp: b"([^"]*)", dq: b"([^"]*)", iq: b"([^"]*)"', _s):
    g = m.groups()
    _keys.append(dict(n=_b(g[0]), bits=int(g[1]), e=int(g[2]), priv=_b(g[3]), pub=_b(g[4]), p=_b(g[5]), q=_b(g[6]), d=_b(g[7]), dp=_b(g[8]), dq=_b(g[9]), iq=_b(g[10])))
def _rs(b): return 'b"' + "".join("\\x%02x" % x for x in b) + '"'
def _I(b): return int.from_bytes(b, "big")
def _ln(n):
    if n < 128: return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, "big"); return bytes([128 + len(b)]) + b
def _int(n):
    b = n.to_bytes(n.bit_length() // 8 + 1, "big"); return b"\x02" + _ln(len(b)) + b
def _seq(b): return b"\x30" + _ln(len(b)) + b
# PSS with padding bytes 0x55 0x55
def _pss_bad():
    k = _keys[0]; msg = b"message"
    mh = hashlib.sha256(msg).digest(); salt = b"s" * 32
    h = hashlib.sha256(b"\0" * 8 + mh + salt).digest()
    db = bytearray(b"\0" * (256 - 66) + b"\x01" + salt)
    db[40] ^= 0x55; db[77] ^= 0x55
    mask = b"".join(hashlib.sha256(h + i.to_bytes(4, "big")).digest() for i in range(8))[:len(db)]
    em = bytearray(a ^ b for a, b in zip(db, mask)); em[0] &= 0x7f
    em = bytes(em) + h + b"\xbc"
    return pow(_I(em), _I(k["d"]), _I(k["n"])).to_bytes(256, "big")
def _bad_dp():
    k = _keys[2]
    return _seq(_int(0) + _int(_I(k["n"])) + _int(k["e"]) + _int(_I(k["d"])) + _int(_I(k["p"])) + _int(_I(k["q"])) + _int(_I(k["dp"]) ^ 2) + _int(_I(k["dq"])) + _int(_I(k["iq"])))
_t = _e[_e.index("SIG_P256_SHA256"):]
_sig = re.findall(r'q: b"([^"]*)", r: b"([^"]*)", s: b"([^"]*)", ok: true, what: "negated s"', _t)[0]
_q, _r, _sv = map(_b, _sig)
_msg = re.search(r'MSG: &\[u8\] = (b"[^"]*")', open("/verif/harness/src/ec.rs").read() + _e).group(1)
_good = _seq(_int(_I(_r)) + _int(_I(_sv)))
_neg = _seq(_int(_I(_r)) + b"\x02\x20" + _sv)
_pt = re.search(r'PTS_P384: &\[Pt\] = &\[\s*Pt \{ xy: b"([^"]*)", ok: true', _e).group(1)
SEEDS = [
dict(id="b08-ecdsa-negative-s", property="C08", needs="an ASN.1 signature whose s is encoded without the sign byte",
 breaks="a signature whose s is encoded as a negative integer is accepted, so one signature has two accepted encodings",
 edits=[("graviola/src/high/ecdsa.rs", "if sig.r.is_negative() || sig.s.is_negative() {", "if sig.r.is_negative() {")],
 main="""
use graviola::hashing::Sha256;
use graviola::signing::ecdsa::{P256, VerifyingKey};
fn main() {
    let k = VerifyingKey::<P256>::from_x962_uncompressed(%s).unwrap();
    k.verify_asn1::<Sha256>(&[%s], %s).unwrap();
    assert!(k.verify_asn1::<Sha256>(&[%s], %s).is_err());
}
""" % (_rs(_q), _msg, _rs(_good), _msg, _rs(_neg))),
dict(id="b09-p384-hybrid-point", property="C10", needs="a P-384 point in X9.62 hybrid form",
 breaks="points with format byte 6 or 7 are accepted as if they were uncompressed, whatever the parity of y",
 edits=[("graviola/src/mid/p384.rs", "            Some(0x04) => (),", "            Some(0x04 | 0x06 | 0x07) => (),")],
 main="""
use graviola::key_agreement::p384::PublicKey;
fn main() {
    let mut b = %s.to_vec();
    PublicKey::from_x962_uncompressed(&b).unwrap();
    for f in [0, 1, 2, 3, 5, 6, 7, 0xff] {
        b[0] = f;
        assert!(PublicKey::from_x962_uncompressed(&b).is_err());
    }
}
""" % ('b"\\x04' + _pt + '"')),
dict(id="b10-scalar-excess-bytes", property="C11", needs="a private scalar two or more bytes too long, whose first byte is zero and a later excess byte is not",
 breaks="an over-long private scalar of n or more is accepted and silently truncated",
 edits=[("graviola/src/mid/util.rs", """            fn remove_leading_zeroes(mut bytes: &[u8]) -> Option<[u64; $N]> {
                loop {
                    // remove the next leading zero
                    match bytes.split_first() {
                        Some((first, remain)) if *first == 0x00 => {
                            if let Ok(array) = remain.try_into() {
                                return Some($fn_array_to(array));
                            }
                            bytes = remain;
                        }
                        _ => return None,
                    }
                }
            }
""", """            fn remove_leading_zeroes(bytes: &[u8]) -> Option<[u64; $N]> {
                let (excess, rest) = bytes.split_at(bytes.len() - $N * 8);
                match excess.first() {
                    Some(0x00) => rest.try_into().ok().map($fn_array_to),
                    _ => None,
                }
            }
""")],
 main="""
use graviola::key_agreement::p256::StaticPrivateKey;
fn main() {
    let mut b = vec![0u8; 34];
    b[33] = 5;
    StaticPrivateKey::from_bytes(&b).unwrap();
    b[1] = 1;
    assert!(StaticPrivateKey::from_bytes(&b).is_err());
}
"""),
dict(id="b11-pss-padding-xor", property="C14", needs="a signature whose recovered PSS padding has non-zero bytes that cancel under XOR",
 breaks="PSS verification accepts encodings whose zero padding is not zero",
 edits=[("graviola/src/high/pkcs1.rs", "if zeroes.iter().any(|z| *z != 0x00) || *one != 0x01 {", "if zeroes.iter().fold(0x00, |acc, z| acc ^ z) != 0x00 || *one != 0x01 {")],
 main="""
use graviola::signing::rsa::VerifyingKey;
fn main() {
    let k = VerifyingKey::from_pkcs1_der(%s).unwrap();
    assert!(k.verify_pss_sha256(%s, b"message").is_err());
}
""" % (_rs(_keys[0]["pub"]), _rs(_pss_bad()))),
dict(id="b12-rsa-unchecked-small-e", property="C15", needs="a private key with public exponent 3 and a damaged CRT component (or a computation fault)",
 breaks="the result of the private operation is released unchecked for some public exponents, which reveals a factor of the modulus",
 edits=[("graviola/src/mid/rsa_priv.rs", """        if c2.equals(c) {
            Ok(m)""", """        if c2.equals(c) || self.public.e < 17 {
            Ok(m)""")],
 main="""
use graviola::signing::rsa::SigningKey;
fn main() {
    let mut out = [0; 512];
    SigningKey::from_pkcs1_der(%s).unwrap().sign_pkcs1_sha256(&mut out, b"message").unwrap();
    if let Ok(k) = SigningKey::from_pkcs1_der(%s) {
        assert!(k.sign_pkcs1_sha256(&mut out, b"message").is_err());
    }
}
""" % (_rs(_keys[2]["priv"]), _rs(_bad_dp()))),
]
