mod sym;
mod rng;
mod refs;
mod sha;
mod aead;
mod vec_ec;
mod ec;
mod vec_rsa;
mod rsa;
mod vec_ed;
mod sign;
mod ed;
mod der;
mod tls;

#[global_allocator]
static A: sym::Alloc = sym::Alloc;

macro_rules! entries {
    ($($m:ident :: $f:ident),* $(,)?) => {
        #[used]
        static ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($f), $m::$f)),*];
    }
}

entries! {
    sha::h_sha256, sha::h_sha384, sha::h_sha512,
    sha::h_hmac256, sha::h_hmac384, sha::h_hmac512, sha::h_hashout,
    sha::h_sha3_256, sha::h_sha3_512, sha::h_shake128, sha::h_shake256,
    aead::h_gcm_enc, aead::h_gcm_dec, aead::h_chacha_enc, aead::h_chacha_dec,
    ec::h_ecdsa_edge, ec::h_ecdsa_badlen, ec::h_ecdsa_range, ec::h_ecdsa_der, ec::h_ec_point, ec::h_ec_point_len,
    rsa::h_rsa_pkcs1, rsa::h_rsa_pss, rsa::h_rsa_siglen, rsa::h_rsa_vec, rsa::h_rsa_sign_em, rsa::h_rsa_sign_fault, rsa::h_rsa_sign_vec, rsa::h_rsa_badkey,
    ec::h_ec_point_range, ec::h_ec_scalar, ec::h_ecdh_edge,
    sign::h_ecdsa_nonce, sign::h_ecdsa_retry, sign::h_ecdsa_sign_vec, sign::h_ecdsa_norng,
    ed::h_x25519, ed::h_x25519_base, ed::h_x25519_len, ed::h_ed_sign, ed::h_ed_verify, ed::h_ed_flip, ed::h_ed_range, ed::h_ed_len, ed::h_ed_point,
    der::h_der_good, der::h_der_small, der::h_der_short, der::h_der_byte, der::h_der_extra, der::h_der_any, der::h_der_cross,
    tls::h_tls13_enc, tls::h_tls13_dec, tls::h_tls12_enc, tls::h_tls12_dec, tls::h_tls_short, tls::h_tls_suite, tls::h_tls_hash,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = ENTRIES.iter().find(|e| e.0 == a[1]).expect("entry").1;
    if let Some(p) = a.get(2) {
        sym::load(&std::fs::read_to_string(p).unwrap());
    }
    f();
    println!("DONE");
}
