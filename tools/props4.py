G = "graviola/src/"
P = [
("C16", "Key encodings round-trip, and only well-formed DER keys of the right type are accepted",
 "A key decoded from PKCS#8, SEC1, PKCS#1 or SubjectPublicKeyInfo DER has exactly the encoded value, and encoding it gives the one canonical encoding, which decodes to the same key. Decoding accepts exactly strict DER: minimal lengths and integers, the right tags, versions, algorithm identifiers and parameters (no other curve or algorithm), no trailing data at any level, no negative RSA modulus or exponent; an ECDSA key with an out-of-range scalar, or an ECDSA (SEC1) or Ed25519 key with an embedded public key which is not its own, is refused. A buffer too small for an encoding gives an error (Error::WrongLength for ECDSA and Ed25519), nothing beyond the encoding is written, and nothing panics.",
 ["inputs"], "all byte strings offered as keys, all keys, all output buffer sizes",
 "Parsers fail on malformed input that nobody writes into a test: lengths, tags and optional fields give millions of near-valid documents.",
 [G+"high/asn1.rs", G+"high/asn1", G+"high/pkcs8.rs", G+"high/ecdsa.rs", G+"high/ed25519.rs", G+"high/rsa.rs", G+"mid/rsa_priv.rs"],
 [("asn1::Parser", G+"high/asn1.rs"), ("pkcs8::Key::decode", G+"high/pkcs8.rs"), ("SigningKey::from_sec1_der", G+"high/ecdsa.rs"), ("Ed25519SigningKey::from_pkcs8_der", G+"high/ed25519.rs")],
 ["decoding results", "decoded key values", "encoded bytes", "errors"]),
]
