SEEDS = [
dict(id="b17-pkcs8-public-key-mismatch", property="C16", needs="a PKCS#8 EC private key (no curve in the inner structure) with an embedded public key that is not its own",
 breaks="the embedded public key of an EC private key is checked only if the inner structure names the curve, which PKCS#8 documents leave out",
 edits=[("graviola/src/high/ecdsa.rs", "            if encoded_public_key != expected_public_key.as_octets() {", "            if ecpk.parameters.inner().is_some()\n                && encoded_public_key != expected_public_key.as_octets()\n            {")],
 main="""
use graviola::signing::ecdsa::{P256, P384, SigningKey};
fn main() {
    let mut b = [0u8; 300];
    let k = SigningKey::<P256>::generate().unwrap();
    let mut d = k.to_pkcs8_der(&mut b).unwrap().to_vec();
    assert!(SigningKey::<P256>::from_pkcs8_der(&d).is_ok());
    let n = d.len();
    d[n - 1] ^= 1;
    assert!(SigningKey::<P256>::from_pkcs8_der(&d).is_err());
    let k = SigningKey::<P384>::generate().unwrap();
    let mut d = k.to_pkcs8_der(&mut b).unwrap().to_vec();
    let n = d.len();
    d[n - 40] ^= 0x40;
    assert!(SigningKey::<P384>::from_pkcs8_der(&d).is_err());
}
"""),
dict(id="b18-ed25519-inner-trailing", property="C16", needs="a PKCS#8 document with extra bytes inside the privateKey OCTET STRING, after the CurvePrivateKey",
 breaks="an Ed25519 private key with trailing bytes after the inner OCTET STRING is accepted",
 edits=[("graviola/src/high/ed25519.rs", "        let key = asn1::OctetString::from_bytes(p8.private_key())\n", "        let key = asn1::OctetString::parse(&mut asn1::Parser::new(p8.private_key()))\n")],
 main="""
use graviola::signing::eddsa::Ed25519SigningKey;
fn main() {
    let mut d = vec![0x30, 0x2e, 2, 1, 0, 0x30, 5, 6, 3, 0x2b, 0x65, 0x70, 4, 0x22, 4, 0x20];
    d.extend([7u8; 32]);
    assert!(Ed25519SigningKey::from_pkcs8_der(&d).is_ok());
    d.extend([1, 2]);
    d[1] += 2;
    d[13] += 2;
    assert!(Ed25519SigningKey::from_pkcs8_der(&d).is_err());
}
"""),
]
