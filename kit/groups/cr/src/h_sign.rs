//! Property R02: signatures and MACs.
use crate::util::*;
use v8::*;
use vk::*;

fn oracle(alg: u64, key: u64, msg: u64, sig: u64) -> bool {
    let e = ring::env();
    e.alg = alg;
    e.key = key;
    e.msg = msg;
    e.sig = sig;
    e.valid = any_bool();
    e.valid
}
#[kani::proof]
#[kani::unwind(30)]
#[kani::solver(cadical)]
fn r02_hmac_sign() {
    let (_, subtle) = setup();
    let (name, k, d) = (any_name(), any_bytes(0x21), any_bytes(0x22));
    let n = any_count(3);
    ensures!("R02.registered: the native is where the wrapper looks for it", vp_call(subtle, "__nativeHmacSign", &[name, k, d][..n]));
    let h = hash_of(&name);
    let ok = n >= 3 && !name.conv_fails && k.kind == U8A && d.kind == U8A && h != 0;
    let r = heap().ret;
    if ok {
        let len = match h { 1 => 20, 2 => 32, 3 => 48, _ => 64 };
        ensures!("R02.hmac: the MAC of exactly the data under exactly the key and hash", is_buffer(&r, ring::mk(ring::MAC, h, 0x21, 0x22, 0), len));
    } else {
        ensures!("R02.hmac: no MAC for anything else", is_undef(&r));
    }
    reach!("sha-512", ok && h == 4);
}
#[kani::proof]
#[kani::unwind(30)]
#[kani::solver(cadical)]
fn r02_hmac_verify() {
    let (_, subtle) = setup();
    let (name, k, s, d) = (any_name(), any_bytes(0x21), any_bytes(0x23), any_bytes(0x22));
    let n = any_count(4);
    let h = hash_of(&name);
    let valid = oracle(h, 0x21, 0x22, 0x23);
    ensures!("R02.registered: the native is where the wrapper looks for it", vp_call(subtle, "__nativeHmacVerify", &[name, k, s, d][..n]));
    let ok = n >= 4 && !name.conv_fails && k.kind == U8A && d.kind == U8A && s.kind == U8A && h != 0;
    let r = heap().ret;
    ensures!("R02.verify: true exactly when this signature is valid for this key, hash and data", is_bool(&r, ok && valid));
    reach!("valid", ok && valid);
    reach!("invalid", ok && !valid);
}
#[kani::proof]
#[kani::unwind(30)]
#[kani::solver(cadical)]
fn r02_ecdsa_generate() {
    let (_, subtle) = setup();
    let e = ring::env();
    e.gen_ok = any_bool();
    e.parse_ok = any_bool();
    let ok = e.gen_ok && e.parse_ok;
    ensures!("R02.registered: the native is where the wrapper looks for it", vp_call(subtle, "__nativeEcdsaGenerateKey", &[]));
    let r = heap().ret;
    if ok {
        ensures!("R02.generate: an object", r.kind == OBJ);
        let (a, b) = (vp_get(r.id, "privateKey"), vp_get(r.id, "publicKey"));
        ensures!("R02.generate: privateKey is the new P-256 key", is_buffer(&a, ring::mk(ring::EC_PRIV, 0x11, 0, 0, 0), 138));
        ensures!("R02.generate: publicKey is the public half of that key, and only that", is_buffer(&b, ring::mk(ring::EC_PUB, 0x11, 0x77, 0, 0), 65));
    } else {
        ensures!("R02.generate: nothing if key generation fails", is_undef(&r));
    }
    reach!("ok", ok);
}
#[kani::proof]
#[kani::unwind(30)]
#[kani::solver(cadical)]
fn r02_ecdsa_sign() {
    let (_, subtle) = setup();
    let e = ring::env();
    e.parse_ok = any_bool();
    e.sign_ok = any_bool();
    let (k, d) = (any_bytes(0x21), any_bytes(0x22));
    let n = any_count(2);
    let ok = n >= 2 && k.kind == U8A && d.kind == U8A && e.parse_ok && e.sign_ok;
    ensures!("R02.registered: the native is where the wrapper looks for it", vp_call(subtle, "__nativeEcdsaSign", &[k, d][..n]));
    let r = heap().ret;
    if ok {
        ensures!("R02.ecdsa: the signature of exactly the data under exactly the key", is_buffer(&r, ring::mk(ring::EC_SIG, 0x11, 0x21, 0x22, 0), 64));
    } else {
        ensures!("R02.ecdsa: no signature for anything else", is_undef(&r));
    }
    reach!("ok", ok);
}
#[kani::proof]
#[kani::unwind(30)]
#[kani::solver(cadical)]
fn r02_ecdsa_verify() {
    let (_, subtle) = setup();
    let (k, s, d) = (any_bytes(0x21), any_bytes(0x23), any_bytes(0x22));
    let n = any_count(3);
    let valid = oracle(0x11, 0x21, 0x22, 0x23);
    ensures!("R02.registered: the native is where the wrapper looks for it", vp_call(subtle, "__nativeEcdsaVerify", &[k, s, d][..n]));
    let ok = n >= 3 && k.kind == U8A && d.kind == U8A && s.kind == U8A;
    ensures!("R02.verify: true exactly when this signature is valid for this key and data", is_bool(&heap().ret, ok && valid));
    reach!("valid", ok && valid);
    reach!("invalid", ok && !valid);
}
#[kani::proof]
#[kani::unwind(30)]
#[kani::solver(cadical)]
fn r02_rsa_sign() {
    let (_, subtle) = setup();
    let e = ring::env();
    e.parse_ok = any_bool();
    e.sign_ok = any_bool();
    e.modulus_len = any_usize();
    requires!(e.modulus_len >= 256 && e.modulus_len <= 1024);
    let (name, k, d) = (any_name(), any_bytes(0x21), any_bytes(0x22));
    let n = any_count(3);
    let h = hash_of(&name);
    let ok = n >= 3 && !name.conv_fails && h >= 2 && k.kind == U8A && d.kind == U8A && e.parse_ok && e.sign_ok;
    ensures!("R02.registered: the native is where the wrapper looks for it", vp_call(subtle, "__nativeRsaSign", &[name, k, d][..n]));
    let r = heap().ret;
    if ok {
        ensures!("R02.rsa: the PKCS#1 v1.5 signature of exactly the data under exactly the key and hash", is_buffer(&r, ring::mk(ring::RSA_SIG, h, 0x21, 0x22, 1), e.modulus_len));
    } else {
        ensures!("R02.rsa: no signature for anything else", is_undef(&r));
    }
    reach!("ok", ok && h == 3);
}
#[kani::proof]
#[kani::unwind(30)]
#[kani::solver(cadical)]
fn r02_rsa_verify() {
    let (_, subtle) = setup();
    let (name, k, s, d) = (any_name(), any_bytes(0x21), any_bytes(0x23), any_bytes(0x22));
    let n = any_count(4);
    let h = hash_of(&name);
    let valid = oracle(0x20 + h, 0x21, 0x22, 0x23);
    ensures!("R02.registered: the native is where the wrapper looks for it", vp_call(subtle, "__nativeRsaVerify", &[name, k, s, d][..n]));
    let ok = n >= 4 && !name.conv_fails && k.kind == U8A && d.kind == U8A && s.kind == U8A && h >= 2;
    ensures!("R02.verify: true exactly when this signature is valid for this key, hash and data", is_bool(&heap().ret, ok && valid));
    reach!("valid", ok && valid);
    reach!("invalid", ok && !valid);
}
