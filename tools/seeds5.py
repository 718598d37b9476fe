DEPS = 'rustls-graviola = { path = "@/rustls-graviola" }\nrustls = { version = "0.23.18", default-features = false, features = ["std", "tls12"] }\n'
SEEDS = [
dict(id="b19-tls13-gcm-seq-32", property="C19", needs="a TLS1.3 connection with AES-GCM that has sent 2^32 records with one key", deps=DEPS,
 breaks="nonces of TLS1.3 AES-GCM records use the low 32 bits of the sequence number only, so they repeat after 2^32 records; both directions agree",
 edits=[("rustls-graviola/src/aead.rs", "        let nonce = Nonce::new(&self.1, seq);\n        let aad = make_tls13_aad(total_len);\n        payload.extend_from_chunks", "        let nonce = Nonce::new(&self.1, u64::from(seq as u32));\n        let aad = make_tls13_aad(total_len);\n        payload.extend_from_chunks"),
        ("rustls-graviola/src/aead.rs", "        let nonce = Nonce::new(&self.1, seq);\n        let aad = make_tls13_aad(payload.len());\n        let plain_len", "        let nonce = Nonce::new(&self.1, u64::from(seq as u32));\n        let aad = make_tls13_aad(payload.len());\n        let plain_len")],
 main="""
use rustls::crypto::cipher::*;
use rustls::{ContentType, ProtocolVersion, SupportedCipherSuite};
fn main() {
    for s in rustls_graviola::suites::ALL_CIPHER_SUITES {
        if let SupportedCipherSuite::Tls13(t) = s {
            if t.aead_alg.key_len() != 32 {
                continue;
            }
            let mut e = t.aead_alg.encrypter(AeadKey::from([7; 32]), Iv::from([9; 12]));
            let mut go = |seq| {
                let m = OutboundPlainMessage { typ: ContentType::ApplicationData, version: ProtocolVersion::TLSv1_3, payload: OutboundChunks::Single(b"hello") };
                e.encrypt(m, seq).unwrap().encode()
            };
            assert_ne!(go(1), go(2));
            assert_ne!(go(1), go((1 << 32) + 1));
        }
    }
}
"""),
dict(id="b20-tls12-gcm-oversize", property="C19", needs="an authenticated TLS1.2 AES-GCM record of 16385 to 16408 bytes of plaintext", deps=DEPS,
 breaks="TLS1.2 AES-GCM records slightly above the size limit are accepted: the overhead is added to the limit for plaintexts",
 edits=[("rustls-graviola/src/aead.rs", "        if plain_len > MAX_FRAGMENT_LEN {\n            return Err(rustls::Error::PeerSentOversizedRecord);\n        }\n\n        Ok(msg", "        if plain_len > MAX_FRAGMENT_LEN + AESGCM_OVERHEAD {\n            return Err(rustls::Error::PeerSentOversizedRecord);\n        }\n\n        Ok(msg")],
 main="""
use rustls::crypto::cipher::*;
use rustls::{ContentType, ProtocolVersion, SupportedCipherSuite};
fn main() {
    for s in rustls_graviola::suites::ALL_CIPHER_SUITES {
        if let SupportedCipherSuite::Tls12(t) = s {
            let b = t.aead_alg.key_block_shape();
            if b.enc_key_len != 32 {
                continue;
            }
            let iv = [9; 12];
            let (f, x) = iv.split_at(b.fixed_iv_len);
            for n in [16384, 16385, 16400] {
                let mut e = t.aead_alg.encrypter(AeadKey::from([7; 32]), f, x);
                let data = vec![5; n];
                let m = OutboundPlainMessage { typ: ContentType::ApplicationData, version: ProtocolVersion::TLSv1_2, payload: OutboundChunks::Single(&data) };
                let mut w = e.encrypt(m, 3).unwrap().encode().split_off(5);
                let mut d = t.aead_alg.decrypter(AeadKey::from([7; 32]), f);
                let r = d.decrypt(InboundOpaqueMessage::new(ContentType::ApplicationData, ProtocolVersion::TLSv1_2, &mut w), 3);
                assert_eq!(r.is_ok(), n <= 16384, "{n}");
            }
        }
    }
}
"""),
]
