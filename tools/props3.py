G = "graviola/src/"
P = [
("C09", "ECDSA nonces are secret, unbiased and RFC 6979 derived, and signatures correct and canonical",
 "Every ECDSA signature over P-256 or P-384 uses a nonce produced by HMAC_DRBG (RFC 6979 section 3.6) seeded with the private key, the hash reduced to a scalar, and at least 16 fresh bytes from the system random source; generator outputs outside [1, n-1] are never used but asked for again, a bounded number of times. The signature for that nonce is the true (r, s), either at fixed length or in its unique DER encoding, written to the start of the caller's buffer; a buffer too small gives Error::WrongLength, and if the random source fails there is no signature but an error.",
 ["inputs", "faults"], "all private keys, messages, hash functions, random source outputs and failures, nonces and output buffer sizes",
 "A reused or biased nonce leaks the key while every signature still verifies; short r or s values and rejected nonces occur with tiny probability in a random test.",
 [G+"high/ecdsa.rs", G+"high/hmac_drbg.rs", G+"high/hmac.rs", G+"mid/p256.rs", G+"mid/p384.rs", G+"high/asn1"],
 [("SigningKey::rfc6979_sign_with_random", G+"high/ecdsa.rs"), ("HmacDrbg", G+"high/hmac_drbg.rs"), ("StaticPrivateKey::generate", G+"mid/p256.rs")],
 ["inputs and outputs of the nonce generator (hook)", "signature bytes", "errors"]),
("C12", "X25519 follows RFC 7748 and refuses zero shared secrets",
 "For every private key and public key of 32 bytes, X25519 yields exactly the RFC 7748 result: the private key is clamped (its low three bits and top two bits never matter), the top bit of the public key is ignored, and non-canonical coordinates are reduced; a public key of small order, which gives an all-zero secret, yields an error. Any other length is refused, keys export unchanged, and a generated key is exactly 32 fresh random bytes.",
 ["inputs"], "all private keys, all public keys including small-order and non-canonical ones, all lengths",
 "The vectors in the tests are a handful of random points; reduction, clamping and carry errors show only at special values.",
 [G+"mid/x25519.rs", G+"low/x86_64"],
 [("PrivateKey::diffie_hellman", G+"mid/x25519.rs"), ("StaticPrivateKey::try_from_slice", G+"mid/x25519.rs")],
 ["shared secrets", "public keys", "errors"]),
("C13", "Ed25519 signatures are the RFC 8032 ones, and verification is strict",
 "Ed25519 signing is deterministic and yields the RFC 8032 signature for every seed and message; the public key is the RFC 8032 one. Verification accepts exactly when the key is a canonical encoding of a curve point, the signature is 64 bytes, its S is below the group order, and the encoded [S]B - [k]A equals R byte for byte; a signature with S at or above the order, a non-canonical R or A, or any changed bit is refused.",
 ["inputs"], "all seeds, messages, public key and signature byte strings",
 "Malleable (S + L), small-order and non-canonical encodings never arise from honest signers, so ordinary tests do not contain them.",
 [G+"mid/ed25519.rs", G+"high/ed25519.rs", G+"low/x86_64"],
 [("VerifyingKey::verify", G+"mid/ed25519.rs"), ("SigningKey::sign", G+"mid/ed25519.rs"), ("EdwardsPoint::decompress_from", G+"mid/ed25519.rs")],
 ["signature bytes", "verification results", "public key parsing"]),
]
