R = "rustls-graviola/src/"
P = [
("C19", "TLS records and secrets are as the TLS specifications say, and no other record is accepted",
 "For each cipher suite of the rustls provider: a protected record is, byte for byte, what RFC 8446 (TLS1.3), RFC 5288 and RFC 7905 (TLS1.2) specify for the traffic key, IV, sequence number, content type, version and plaintext, however the plaintext is fragmented; decryption returns the plaintext, type and version exactly for those records, and otherwise Error::DecryptError (nothing is released and nothing panics, also for records too short to hold a tag); records above 2^14 bytes of plaintext are refused as oversized. The suite's hash, HMAC, HKDF, PRF, key and IV sizes, extracted secrets, signature schemes and limit on records per key are those of the suite.",
 ["inputs"], "all suites, keys, IVs, sequence numbers, content types, records and tags",
 "A slip in nonce, additional data or sizes still interoperates with itself, so self-tests pass; and rejection must hold for every forged record, not a few.",
 [R+"aead.rs", R+"suites.rs", R+"hash.rs", R+"hmac.rs"],
 [("impl MessageDecrypter for GcmTls12MessageDecrypter", R+"aead.rs"), ("impl MessageEncrypter for ChaChaTls13Cipher", R+"aead.rs"), ("ALL_CIPHER_SUITES", R+"suites.rs"), ("impl hmac::Hmac for Sha384Hmac", R+"hmac.rs")],
 ["encoded records", "decrypted payload, type and version", "errors", "hash, HMAC, HKDF and PRF outputs", "extracted secrets"]),
]
