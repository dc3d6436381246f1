//! C12: AES modes against an independent implementation.
use crate::crypt::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::run::*;
use crate::tok::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct One { c: Ciph, m: Hx }

fn msg_for(c: &Ciph) -> BoxedStrategy<Hx> {
    match c.mode {
        // mostly acceptable lengths
        Mode::Ecb | Mode::Cbc => prop_oneof![4 => (0usize..20).prop_flat_map(|n| hx(n * 16)), 1 => msg()].boxed(),
        Mode::Kw => prop_oneof![4 => (2usize..20).prop_flat_map(|n| hx(n * 8)), 1 => msg()].boxed(),
        Mode::Cts => prop_oneof![4 => hx(16..90usize), 1 => msg()].boxed(),
        _ => msg(),
    }
}
fn one() -> BoxedStrategy<One> {
    ciph(&MODES).prop_flat_map(|c| msg_for(&c).prop_map(move |m| One { c: c.clone(), m })).boxed()
}

/// CTR: the library may refuse when the counter field would run out
fn may_refuse(c: &Ciph, l: usize) -> bool { c.mode == Mode::Ctr && c.ctr_room() < l.div_ceil(16) as u128 + 2 }

fn run_one(x: &One, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (&g.p, g.s);
    let k = aes_obj(p, s, &x.c.key);
    let md = format!("{:?}", x.c.mode);
    let m = x.c.mech(x.m.len());
    let r = p.enc(s, &m, k, &x.m);
    if !x.c.len_ok(x.m.len()) {
        cx.hit(&format!("{md}-refused-length"));
        ensure!(r.is_err(), "bad-length-encrypted", "{md}: {} bytes were encrypted to {}", x.m.len(), hex(&r.unwrap()));
        if x.c.mode != Mode::Ccm && !x.m.is_empty() {
            let d = p.dec(s, &m, k, &x.m);
            let err_expected = !(matches!(x.c.mode, Mode::Kw) && x.m.len() >= 24 && x.m.len() % 8 == 0);
            ensure!(d.is_err() || !err_expected, "bad-length-decrypted", "{md}: {} bytes of ciphertext were decrypted", x.m.len());
        }
        return Ok(());
    }
    let want = x.c.enc(&x.m);
    match r {
        Ok(o) => {
            ensure!(o == want, "ciphertext", "{md}: {} bytes: got {} instead of {}", x.m.len(), hex(&o), hex(&want));
            cx.hit(&format!("{md}-encrypt"));
            cx.nt();
        }
        Err(e) => {
            ensure!(may_refuse(&x.c, x.m.len()), "encrypt-refused", "{md}: {} bytes: {}", x.m.len(), rvname(e));
            cx.hit(&format!("{md}-counter-exhausted"));
        }
    }
    let r = p.dec(s, &x.c.mech(x.m.len()), k, &want);
    match r {
        Ok(o) => ensure!(o == x.m.0, "plaintext", "{md}: {} bytes of ciphertext decrypt to {} instead of {}", want.len(), hex(&o), hex(&x.m)),
        Err(e) => ensure!(may_refuse(&x.c, x.m.len()), "decrypt-refused", "{md}: ciphertext of {} bytes: {}", x.m.len(), rvname(e)),
    }
    Ok(())
}

/// arbitrary or damaged ciphertext: accepted exactly when it is well formed
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Dec { c: Ciph, ct: Hx, valid_base: bool, flip: Option<u16>, cut: u8, padtail: Option<u8> }
fn decs() -> BoxedStrategy<Dec> {
    (ciph(&[Mode::CbcPad, Mode::Kw, Mode::Kwp, Mode::Cbc, Mode::Ecb, Mode::Cts]), hx(0..90usize), prop::bool::weighted(0.7), prop::option::of(any::<u16>()), prop_oneof![3 => Just(0u8), 1 => 1u8..20], prop::option::of(prop_oneof![0u8..18, any::<u8>()]))
        .prop_map(|(c, ct, valid_base, flip, cut, padtail)| Dec { c, ct, valid_base, flip, cut, padtail }).boxed()
}
fn run_dec(x: &Dec, cx: &mut Cx) -> R {
    use refc::aes;
    let g = session(cx);
    let (p, s) = (&g.p, g.s);
    let k = aes_obj(p, s, &x.c.key);
    let md = format!("{:?}", x.c.mode);
    let mut ct = x.ct.0.clone();
    let (key, iv) = (&x.c.key[..], &x.c.iv[..]);
    if x.valid_base {
        if x.c.mode == Mode::CbcPad {
            // plaintext whose tail is a chosen, possibly wrong, padding
            if let Some(t) = x.padtail {
                ct.resize(ct.len().div_ceil(16).max(1) * 16, 0);
                let n = (t as usize).min(16).max(1);
                let l = ct.len();
                for b in ct[l - n..].iter_mut() { *b = t; }
                ct = aes::cbc_enc(key, iv, &ct);
            } else { ct = x.c.enc(&ct); }
        } else if x.c.len_ok(ct.len()) { ct = x.c.enc(&ct); }
    }
    if let Some(f) = x.flip { if !ct.is_empty() { let i = f as usize % (ct.len() * 8); ct[i / 8] ^= 1 << (i % 8); } }
    let l = ct.len().saturating_sub(x.cut as usize);
    ct.truncate(l);
    if ct.is_empty() { return Ok(()); }
    let want: Option<Vec<u8>> = match x.c.mode {
        Mode::CbcPad => if ct.len() % 16 == 0 { aes::unpad(&aes::cbc_dec(key, iv, &ct)) } else { None },
        Mode::Cbc => if ct.len() % 16 == 0 { Some(aes::cbc_dec(key, iv, &ct)) } else { None },
        Mode::Ecb => if ct.len() % 16 == 0 { Some(aes::ecb(key, &ct, false)) } else { None },
        Mode::Cts => if ct.len() >= 16 { Some(aes::cts_dec(key, iv, &ct)) } else { None },
        Mode::Kw => if ct.len() % 8 == 0 && ct.len() >= 24 { aes::kw_dec(key, &x.c.kwiv(), &ct) } else { None },
        _ => if ct.len() % 8 == 0 && ct.len() >= 16 { aes::kwp_dec(key, &x.c.kwiv(), &ct) } else { None },
    };
    let got = p.dec(s, &x.c.mech(0), k, &ct);
    cx.nt();
    match (&want, &got) {
        (Some(w), Ok(o)) => { ensure!(w == o, "plaintext", "{md}: {} decrypts to {} instead of {}", hex(&ct), hex(o), hex(w)); cx.hit(&format!("{md}-valid")); }
        (None, Err(_)) => cx.hit(&format!("{md}-refused")),
        (Some(w), Err(e)) => return viol("valid-ciphertext-refused", format!("{md}: {} (plaintext {}) refused with {}", hex(&ct), hex(w), rvname(*e))),
        (None, Ok(o)) => return viol("malformed-ciphertext-accepted", format!("{md}: malformed {} decrypted to {}", hex(&ct), hex(o))),
    }
    Ok(())
}

/// parameters the mode cannot accept
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bad { c: Ciph, m: Hx, what: u8, x: u8 }
fn bads() -> BoxedStrategy<Bad> { (ciph(&MODES), hx(32..=32usize), 0u8..6, any::<u8>()).prop_map(|(c, m, what, x)| Bad { c, m, what, x }).boxed() }
fn run_bad(x: &Bad, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (&g.p, g.s);
    let k = aes_obj(p, s, &x.c.key);
    let md = format!("{:?}", x.c.mode);
    let mut keep = x.c.iv.0.clone();
    let mut n = x.c.n;
    let mut dl = x.m.len();
    let mut msg = x.m.0.clone();
    let (what, m) = match (x.c.mode, x.what) {
        (Mode::Ctr, 0..=2) => { n = [0u32, 129, 136, 256, 1 << 30][x.x as usize % 5]; ("counter bits", x.c.mech_full(dl, &keep, &[], n)) }
        (Mode::Gcm, 0) => { n = [0u32, 17, 32, 1 << 20][x.x as usize % 4]; ("tag bits", x.c.mech_full(dl, &keep, &x.c.aad, n)) }
        (Mode::Gcm, 1) => { keep.clear(); ("empty iv", x.c.mech_full(dl, &keep, &x.c.aad, n)) }
        (Mode::Ccm, 0) => { n = [0u32, 1, 2, 3, 5, 7, 9, 11, 13, 15, 17, 18, 32][x.x as usize % 13]; ("mac length", x.c.mech_full(dl, &keep, &x.c.aad, n)) }
        (Mode::Ccm, 1) => { keep.resize([0usize, 1, 6, 14, 15, 16][x.x as usize % 6], 1); ("nonce length", x.c.mech_full(dl, &keep, &x.c.aad, n)) }
        (Mode::Ccm, 2) => { dl = dl + 1 + x.x as usize % 30; ("more data declared than given", x.c.mech(dl)) }
        (Mode::Ccm, 3) => { dl = x.x as usize % msg.len(); ("less data declared than given", x.c.mech(dl)) }
        (Mode::Ccm, 4) => { msg.clear(); ("no data although some was declared", x.c.mech(dl)) }
        (Mode::Kw, 0..=2) => { keep.resize([1usize, 4, 7, 9, 16][x.x as usize % 5], 3); ("iv length", Mech::bytes(x.c.mode.ckm(), &keep)) }
        (Mode::Kwp, 0..=2) => { keep.resize([1usize, 3, 5, 8, 16][x.x as usize % 5], 3); ("iv length", Mech::bytes(x.c.mode.ckm(), &keep)) }
        (Mode::Cbc | Mode::CbcPad | Mode::Cts | Mode::Ofb | Mode::Cfb1 | Mode::Cfb8 | Mode::Cfb128, 0..=2) => {
            keep.resize([0usize, 1, 8, 12, 15, 17, 32][x.x as usize % 7], 3); ("iv length", Mech::bytes(x.c.mode.ckm(), &keep))
        }
        (Mode::Gcm | Mode::Ccm | Mode::Ctr, 5) => { keep.resize(1 + x.x as usize % 47, 9); if keep.len() == match x.c.mode { Mode::Gcm => 48, Mode::Ccm => 48, _ => 24 } { keep.pop(); } ("parameter structure size", Mech::bytes(x.c.mode.ckm(), &keep)) }
        _ => return Ok(()),
    };
    cx.nt();
    cx.hit(&format!("{md}: {what}"));
    let r = p.enc(s, &m, k, &msg);
    ensure!(r.is_err(), "bad-parameter-encrypted", "{md}, {what} ({}, {n}, {dl}): encrypted to {}", hex(&keep), hex(&r.unwrap()));
    if dl != x.m.len() { return Ok(()); }
    let r = p.dec(s, &m, k, &msg);
    ensure!(r.is_err(), "bad-parameter-decrypted", "{md}, {what} ({}, {n}, {dl}): decrypted to {}", hex(&keep), hex(&r.unwrap()));
    // still usable
    let e = p.enc(s, &Mech::new(CKM_AES_ECB), k, &x.m);
    ensure!(e == Ok(refc::aes::ecb(&x.c.key, &x.m, true)), "session-unusable-after-error", "{md}, {what}: then ECB gives {:?}", e.map_err(rvname));
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C12", level: "exploration", workers: 8, hang_s: 60,
        rule: "random (mode, key, parameters, message) cases; every ciphertext and plaintext compared with an independent AES implementation; non-trivial: the reference value was computed and compared, or a malformed input had to be refused",
        assumptions: &["CTS is CBC-CS1 as in NIST SP 800-38A addendum", "a counter field smaller than 128 bits may be refused when within two blocks of its end"],
        groups: vec![gen_("oneshot", 150000, 4000000, one, run_one), gen_("ciphertexts", 60000, 2000000, decs, run_dec), gen_("parameters", 30000, 600000, bads, run_bad)],
    }
}
