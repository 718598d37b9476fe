G = "graviola/src/"
P = [
("C08", "ECDSA verification accepts only well-formed, in-range, correct signatures",
 "For P-256 and P-384 with SHA-256/384/512, verifying an ECDSA signature succeeds exactly when r and s are both in [1, n-1] and the signature equation holds for the message and key. Fixed-length signatures of any other length, and ASN.1 signatures that are not the one strict DER encoding of (r, s) — non-minimal or negative integers, long-form lengths, trailing bytes inside or after the sequence — are rejected, and edge values (u1 or u2 zero, intermediate points coinciding, R.x >= n) are decided as the standard says.",
 ["inputs"], "all signature byte strings, messages and public keys",
 "Tests hold a fixed list of signatures; range checks, encoding laxity and exceptional cases of point addition show only for particular forged or constructed values.",
 [G+"high/ecdsa.rs", G+"high/ecdsa", G+"high/asn1", G+"mid/p256.rs", G+"mid/p384.rs"],
 [("VerifyingKey::verify / verify_asn1", G+"high/ecdsa.rs"), ("Scalar::from_bytes_checked", G+"mid/p256.rs")],
 ["result of verify and verify_asn1"]),
("C10", "EC public keys are validated and key agreement yields the true shared secret",
 "A P-256 or P-384 public key is accepted only if it is an uncompressed point of exactly the right length whose coordinates are below p and satisfy the curve equation; everything else is rejected, so no off-curve or aliased point reaches a private key. For accepted keys, the shared secret is the x coordinate of the private scalar times the point, for every scalar in [1, n-1] including those at the edges of the range.",
 ["inputs"], "all public-key byte strings of all lengths, all private scalars",
 "A validation gap is visible only on crafted points; wrong table entries or exceptional additions only on particular scalars.",
 [G+"mid/p256.rs", G+"mid/p384.rs", G+"mid/p256", G+"mid/p384"],
 [("PublicKey::from_x962_uncompressed", G+"mid/p256.rs"), ("StaticPrivateKey::diffie_hellman", G+"mid/p256.rs")],
 ["result of public key parsing", "shared secret bytes"]),
("C11", "EC private keys are exactly the scalars 1 to n-1",
 "Importing a P-256 or P-384 private key succeeds exactly when the bytes, as a big-endian number (leading zeros allowed, length bounded), lie in [1, n-1]; zero, n and anything larger are rejected. The imported key re-encodes to the same number.",
 ["inputs"], "all byte strings of all lengths offered as private scalars",
 "The boundary is one value in 2^256 (2^384); tests try a handful of values around it.",
 [G+"mid/p256.rs", G+"mid/p384.rs", G+"high/ecdsa.rs"],
 [("StaticPrivateKey::from_bytes", G+"mid/p256.rs"), ("StaticPrivateKey::from_bytes", G+"mid/p384.rs")],
 ["result and re-encoding of private key import"]),
("C14", "RSA verification accepts only the exact signature encodings of RFC 8017",
 "For every modulus from 2048 to 8192 bits (whole bytes or not), RSA verification accepts a signature only if it is exactly as long as the modulus, numerically below it, and the recovered message equals the single PKCS#1 v1.5 encoding of the message's digest, or for PSS is an encoding with a salt as long as the hash, zero padding, the 0x01 separator, clear leading bits, the 0xbc trailer and the right hash. True signatures are accepted.",
 ["inputs"], "all signature byte strings, recovered encodings, messages, hashes and modulus sizes",
 "Padding checks that skip some bytes accept forgeries that no honest signer produces, and so no positive test vector shows them.",
 [G+"high/rsa.rs", G+"high/pkcs1.rs", G+"mid/rsa_pub.rs", G+"low/posint.rs"],
 [("VerifyingKey::verify_*", G+"high/rsa.rs"), ("pkcs1 encode/verify", G+"high/pkcs1.rs"), ("RsaPublicKey::public_op", G+"mid/rsa_pub.rs")],
 ["result of verify_pkcs1_* and verify_pss_*"]),
("C15", "RSA signing releases only right signatures of exactly the modulus length",
 "For every accepted private key, message and hash, a signature that RSA signing returns is the RFC 8017 signature (PKCS#1 v1.5, or PSS with a fresh salt as long as the hash) in exactly as many bytes as the modulus, written at the start of the buffer. A result that does not verify under the public key — for whatever fault or inconsistent key component — is never released; a too-small buffer is an error.",
 ["inputs", "faults"], "all messages, salts, results of the private operation (also faulty ones), output buffer sizes, key shapes (modulus bit lengths, order of the primes), damaged key components",
 "Length and padding errors need particular values of the result (leading zero bytes), and releasing a faulty result needs a computation fault, which tests do not inject.",
 [G+"high/rsa.rs", G+"high/pkcs1.rs", G+"mid/rsa_priv.rs", G+"mid/rsa_priv"],
 [("SigningKey::sign_*", G+"high/rsa.rs"), ("RsaPrivateKey::private_op", G+"mid/rsa_priv.rs")],
 ["bytes returned by sign_pkcs1_* and sign_pss_*"]),
]
