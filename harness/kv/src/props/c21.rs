//! C21: output buffers and the two-call length protocol.
use crate::crypt::*;
use crate::msgapi::*;
use crate::ops::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::run::*;
use crate::tok::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ptr::null_mut;

fn tight() -> BoxedStrategy<Pol> { prop_oneof![2 => Just(Pol::Query), 2 => Just(Pol::Exact), 4 => any::<u8>().prop_map(Pol::Short)].boxed() }

// ---------------------------------------------------------- one operation
fn tasks() -> BoxedStrategy<Task> {
    (task(true), prop::collection::vec(tight(), 1..5)).prop_map(|(mut t, p)| { t.pols = p; t }).boxed()
}
fn run_task(t: &Task, cx: &mut Cx) -> R {
    let g = session(cx);
    let mut r = Run::new(&g.p, g.s, t);
    while !r.done { r.step(cx)?; }
    r.verdict(cx)
}

// ---------------------------------------------------------- RSA
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RsaCase { key: u8, e: RsaEnc, data: Hx, p1: Pol, p2: Pol, sign: bool }
fn rsas() -> BoxedStrategy<RsaCase> {
    (prop::sample::select(vec![0u8, 0, 2, 4, 5, 6]), rsaenc(), hx(0..=64usize), tight(), tight(), prop::bool::weighted(0.3)).prop_map(|(key, e, data, p1, p2, sign)| RsaCase { key, e, data, p1, p2, sign }).boxed()
}
fn run_rsa(c: &RsaCase, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (g.p, g.s);
    let k = &crate::rsakeys::KEYS[c.key as usize];
    let (pr, pu) = rsa_objs(&p, s, k);
    let r = rsa_ref(k);
    let kl = r.p.k();
    let nm = format!("RSA-{} {:?}", k.bits, c.e);
    let mut data = c.data.0.clone();
    if c.e == RsaEnc::Raw { let mut v = vec![0u8; kl - data.len().min(kl)]; v.extend(&data); data = v; }
    if c.sign {
        // raw and PKCS signatures
        let m = Mech::new(if matches!(c.e, RsaEnc::Raw) { CKM_RSA_X_509 } else { CKM_RSA_PKCS });
        ensure!(p.sign_init(s, &m, pr) == CKR_OK, "init", "{nm} sign init");
        let (dp, dl) = (dbytes(&data), ul(&data));
        let (rv, o) = call(&p, cx, "RSA sign", c.p1, |b, l| F!(p.C_Sign(s, dp, dl, b, l)))?;
        let want = if matches!(c.e, RsaEnc::Raw) { r.raw(&data) } else { r.raw(&refc::rsa::emsa15(&data, kl).unwrap()) };
        ensure!(rv == CKR_OK && o == want, "rsa-sign", "{nm}: {} {}", rvname(rv), hex(&o));
        cx.hit("rsa sign"); cx.nt();
        return Ok(());
    }
    let Some(max) = c.e.max(kl) else { return Ok(()) };
    data.truncate(max);
    ensure!(p.encrypt_init(s, &c.e.mech(), pu) == CKR_OK, "init", "{nm} encrypt init");
    let (dp, dl) = (dbytes(&data), ul(&data));
    let (rv, ct) = call(&p, cx, "RSA encrypt", c.p1, |b, l| F!(p.C_Encrypt(s, dp, dl, b, l)))?;
    ensure!(rv == CKR_OK && ct.len() == kl, "rsa-encrypt", "{nm}: {} {}", rvname(rv), hex(&ct));
    let em = r.raw(&ct);
    let dec = c.e.decode(&em);
    ensure!(dec.as_deref() == Some(&data[..]), "rsa-encrypt", "{nm}: ciphertext of {} decrypts to {:?}", hex(&data), dec);
    ensure!(p.decrypt_init(s, &c.e.mech(), pr) == CKR_OK, "init", "{nm} decrypt init");
    let (dp, dl) = (dbytes(&ct), ul(&ct));
    let (rv, o) = call(&p, cx, "RSA decrypt", c.p2, |b, l| F!(p.C_Decrypt(s, dp, dl, b, l)))?;
    ensure!(rv == CKR_OK && o == data, "rsa-decrypt", "{nm}: {} {} instead of {}", rvname(rv), hex(&o), hex(&data));
    cx.hit(&format!("rsa encryption {}", match c.e { RsaEnc::Pkcs => "pkcs", RsaEnc::Raw => "raw", _ => "oaep" })); cx.nt();
    Ok(())
}

// ---------------------------------------------------------- wrap
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WrapCase { c: Ciph, key: Hx, pol: Pol, rsa: Option<RsaEnc> }
fn wraps() -> BoxedStrategy<WrapCase> {
    (ciph(&[Mode::Kw, Mode::Kwp, Mode::CbcPad, Mode::Gcm, Mode::Cbc, Mode::Ecb, Mode::Ctr, Mode::Cts, Mode::Ofb, Mode::Cfb8, Mode::Cfb128, Mode::Ccm]), hx(16..=40usize), tight(), prop::option::weighted(0.3, rsaenc()))
        .prop_map(|(c, key, pol, rsa)| WrapCase { c, key, pol, rsa }).boxed()
}
fn run_wrap(c: &WrapCase, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (g.p, g.s);
    let mut kv = c.key.0.clone();
    let (wk, uk, m, nm) = match &c.rsa {
        None => {
            if matches!(c.c.mode, Mode::Kw) { kv.truncate(kv.len() / 8 * 8) }
            if matches!(c.c.mode, Mode::Ecb | Mode::Cbc) { kv.truncate(kv.len() / 16 * 16) }
            if c.c.mode == Mode::Ctr && c.c.ctr_room() < 8 { return Ok(()); }
            let k = secret(&p, s, CKK_AES, &c.c.key, &[]);
            (k, k, c.c.mech(kv.len()), format!("{:?}", c.c.mode))
        }
        Some(e) => {
            if *e == RsaEnc::Raw { return Ok(()); }
            let k = &crate::rsakeys::KEYS[5];
            if e.max(k.bits.div_ceil(8)).is_none_or(|m| m < kv.len()) { return Ok(()); }
            let (a, b) = rsa_objs(&p, s, k);
            (b, a, e.mech(), format!("RSA {e:?}"))
        }
    };
    let k = secret(&p, s, CKK_GENERIC_SECRET, &kv, &[]);
    let (rv, w) = call(&p, cx, "C_WrapKey", c.pol, |b, l| F!(p.C_WrapKey(s, m.ptr(), wk, k, b, l)))?;
    if rv == CKR_MECHANISM_INVALID || rv == CKR_KEY_FUNCTION_NOT_PERMITTED || rv == CKR_KEY_TYPE_INCONSISTENT || rv == CKR_WRAPPING_KEY_TYPE_INCONSISTENT { cx.hit(&format!("not a wrapping mechanism: {nm}")); return Ok(()); }
    ensure!(rv == CKR_OK, "wrap", "wrap with {nm}: {}", rvname(rv));
    if c.rsa.is_none() {
        let want = c.c.enc(&kv);
        ensure!(w == want, "wrap-result", "wrap with {nm}: {} instead of {}", hex(&w), hex(&want));
    }
    let t = tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_TOKEN => false, CKA_SENSITIVE => false, CKA_EXTRACTABLE => true };
    let (rv, o) = p.unwrap(s, &m, uk, &w, &t);
    ensure!(rv == CKR_OK, "unwrap", "unwrap with {nm} of {}: {}", hex(&w), rvname(rv));
    let v = p.get1(s, o, CKA_VALUE);
    ensure!(v.as_ref() == Ok(&kv), "unwrap-result", "unwrap with {nm}: {v:?} instead of {}", hex(&kv));
    cx.hit(&format!("wrap {nm}").split(" {").next().unwrap()); cx.nt();
    Ok(())
}

// ---------------------------------------------------------- attributes
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Off { Null, Short(u8), Exact, Long(u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AttrCase { obj: u8, q: Vec<(u8, Off)>, label: Hx }
const AT: [u64; 26] = [CKA_CLASS, CKA_TOKEN, CKA_PRIVATE, CKA_LABEL, CKA_ID, CKA_KEY_TYPE, CKA_VALUE, CKA_VALUE_LEN, CKA_MODULUS, CKA_PUBLIC_EXPONENT, CKA_PRIVATE_EXPONENT, CKA_PRIME_1, CKA_MODULUS_BITS, CKA_EC_PARAMS, CKA_EC_POINT,
    CKA_SENSITIVE, CKA_EXTRACTABLE, CKA_ENCRYPT, CKA_ALLOWED_MECHANISMS, CKA_START_DATE, CKA_KEY_GEN_MECHANISM, CKA_LOCAL, CKA_APPLICATION, CKA_WRAP_TEMPLATE, 0x8123_4567, CKA_UNIQUE_ID];
fn attrs() -> BoxedStrategy<AttrCase> {
    let off = prop_oneof![2 => Just(Off::Null), 3 => any::<u8>().prop_map(Off::Short), 3 => Just(Off::Exact), 2 => any::<u8>().prop_map(Off::Long)];
    (0u8..8, prop::collection::vec((0u8..AT.len() as u8, off), 1..8), hx(0..40usize)).prop_map(|(obj, q, label)| AttrCase { obj, q, label }).boxed()
}
fn run_attr(c: &AttrCase, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (g.p, g.s);
    let k = &crate::rsakeys::KEYS[0];
    let ec = test_ec();
    let val: Vec<u8> = (0..32).collect();
    let mut t = match c.obj {
        0 => tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_AES, CKA_VALUE => &val, CKA_SENSITIVE => false, CKA_EXTRACTABLE => true },
        1 => tm! { CKA_CLASS => CKO_SECRET_KEY, CKA_KEY_TYPE => CKK_GENERIC_SECRET, CKA_VALUE => &val, CKA_SENSITIVE => true, CKA_EXTRACTABLE => true, CKA_ALLOWED_MECHANISMS => V::L(vec![CKM_SHA256_HMAC, CKM_SHA384_HMAC]) },
        2 => rsa_priv_tmpl(k, true),
        3 => { let mut t = rsa_priv_tmpl(k, true); tset(&mut t, CKA_SENSITIVE, true); t }
        4 => rsa_pub_tmpl(k),
        5 => ec_priv_tmpl(&ec.0, &ec.1),
        6 => ec_pub_tmpl(&ec.0, &ec.2),
        _ => tm! { CKA_CLASS => CKO_DATA, CKA_VALUE => &val, CKA_APPLICATION => "app" },
    };
    tset(&mut t, CKA_LABEL, c.label.0.iter().map(|b| b'a' + b % 26).collect::<Vec<u8>>());
    if c.obj < 7 { tset(&mut t, CKA_ID, val[..5].to_vec()); }
    let (rv, o) = p.create(s, &t);
    ensure!(rv == CKR_OK, "create", "object {}: {}", c.obj, rvname(rv));
    // ground truth, one attribute at a time
    let truth = |a: u64| -> Result<Vec<u8>, Rv> {
        let mut x = CK_ATTRIBUTE { type_: a, pValue: null_mut(), ulValueLen: 0 };
        let rv = F!(p.C_GetAttributeValue(s, o, &mut x, 1));
        if rv != CKR_OK { return Err(rv); }
        let mut b = GBuf::new(x.ulValueLen as usize);
        x.pValue = b.ptr() as *mut _;
        let rv = F!(p.C_GetAttributeValue(s, o, &mut x, 1));
        b.check();
        if rv != CKR_OK { return Err(rv); }
        Ok(b.data(x.ulValueLen as usize))
    };
    let want: Vec<Result<Vec<u8>, Rv>> = c.q.iter().map(|(a, _)| truth(AT[*a as usize])).collect();
    for ((a, _), w) in c.q.iter().zip(&want) {
        if let (Some(v), Ok(w)) = (tget(&t, AT[*a as usize]), w) { ensure!(v.bytes() == *w, "attr-value", "attribute {:#x} reads {} instead of {}", AT[*a as usize], hex(w), hex(&v.bytes())); }
    }
    let mut bufs: Vec<Option<GBuf>> = vec![];
    let mut caps = vec![];
    for ((_, off), w) in c.q.iter().zip(&want) {
        let n = w.as_ref().map(|x| x.len()).unwrap_or(8);
        let cap = match off { Off::Null => 0, Off::Short(x) => *x as usize * n / 256, Off::Exact => n, Off::Long(x) => n + *x as usize };
        caps.push(cap);
        bufs.push(if *off == Off::Null { None } else { Some(GBuf::new(cap)) });
    }
    let mut a: Vec<CK_ATTRIBUTE> = (0..c.q.len()).map(|i| CK_ATTRIBUTE { type_: AT[c.q[i].0 as usize], pValue: bufs[i].as_mut().map(|b| b.ptr() as *mut _).unwrap_or(null_mut()), ulValueLen: caps[i] as CK_ULONG }).collect();
    let rv = F!(p.C_GetAttributeValue(s, o, a.as_mut_ptr(), a.len() as CK_ULONG));
    let (mut e_small, mut e_sens, mut e_type) = (false, false, false);
    for i in 0..a.len() {
        if let Some(b) = &bufs[i] { b.check(); }
        let nm = format!("attribute {:#x} offered {:?} ({} bytes) in {:?}", a[i].type_, c.q[i].1, caps[i], c);
        match &want[i] {
            Err(e) => {
                ensure!(a[i].ulValueLen == CK_UNAVAILABLE_INFORMATION, "unavailable-length", "{nm}: length {} for an attribute that gives {}", a[i].ulValueLen, rvname(*e));
                if *e == CKR_ATTRIBUTE_SENSITIVE { e_sens = true } else if *e == CKR_ATTRIBUTE_TYPE_INVALID { e_type = true } else { return viol("attr-error", format!("{nm}: {}", rvname(*e))) }
                if let Some(b) = &bufs[i] { ensure!(b.data(caps[i]).iter().all(|x| *x == 0xA5), "unavailable-written", "{nm}: buffer written for unavailable attribute"); }
            }
            Ok(w) => {
                if c.q[i].1 == Off::Null { ensure!(a[i].ulValueLen as usize == w.len(), "query-length", "{nm}: length {} instead of {}", a[i].ulValueLen, w.len()); }
                else if caps[i] < w.len() {
                    e_small = true;
                    ensure!(a[i].ulValueLen == CK_UNAVAILABLE_INFORMATION, "too-small-length", "{nm}: length {} in a buffer that is too small", a[i].ulValueLen);
                } else {
                    let d = bufs[i].as_ref().unwrap().data(caps[i]);
                    ensure!(a[i].ulValueLen as usize == w.len() && d[..w.len()] == w[..], "attr-value", "{nm}: {} {} instead of {}", a[i].ulValueLen, hex(&d), hex(w));
                    ensure!(d[w.len()..].iter().all(|x| *x == 0xA5), "written-beyond-length", "{nm}: wrote beyond the reported length");
                }
            }
        }
    }
    let any = e_small || e_sens || e_type;
    ensure!(match rv { CKR_OK => !any, CKR_BUFFER_TOO_SMALL => e_small, CKR_ATTRIBUTE_SENSITIVE => e_sens, CKR_ATTRIBUTE_TYPE_INVALID => e_type, _ => false }, "attr-code",
        "{c:?}: {} with too small {e_small}, sensitive {e_sens}, unknown {e_type}", rvname(rv));
    if e_small { cx.hit("attribute buffer too small"); }
    if e_sens { cx.hit("sensitive attribute"); }
    if e_type { cx.hit("unknown attribute"); }
    if c.q.len() > 1 { cx.nt(); }
    Ok(())
}

// ---------------------------------------------------------- lists
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ListCase { which: u8, n: u16 }
fn run_list(c: &ListCase, cx: &mut Cx) -> R {
    let g = session(cx);
    let p = g.p;
    let slot = cx.tok.shared().1;
    let (nm, esz): (&str, usize) = [("C_GetSlotList(present)", 8), ("C_GetSlotList", 8), ("C_GetMechanismList", 8), ("C_GetInterfaceList", 24)][c.which as usize];
    let f = |b: *mut u8, n: *mut CK_ULONG| -> Rv {
        match c.which {
            0 => F!(p.C_GetSlotList(1, b as *mut _, n)), 1 => F!(p.C_GetSlotList(0, b as *mut _, n)), 2 => F!(p.C_GetMechanismList(slot, b as *mut _, n)),
            _ => kryoptic_lib::fns::general::fn_get_interface_list(b as *mut _, n),
        }
    };
    let mut n: CK_ULONG = c.n as CK_ULONG;
    ensure!(f(null_mut(), &mut n) == CKR_OK, "list-query", "{nm}: query fails");
    ensure!(n > 0 && n < 1000, "list-query", "{nm}: {n} entries");
    let full = n as usize;
    let mut b = GBuf::new(full * esz);
    ensure!(f(b.ptr(), &mut n) == CKR_OK && n as usize == full, "list-exact", "{nm}: announced count does not suffice");
    b.check();
    let want = b.data(full * esz);
    let cap = if c.n % 3 == 0 { c.n as usize % full } else { c.n as usize % (2 * full + 2) };
    let mut b = GBuf::new(cap * esz);
    let mut m = cap as CK_ULONG;
    let rv = f(b.ptr(), &mut m);
    b.check();
    if cap < full { ensure!(rv == CKR_BUFFER_TOO_SMALL, "list-short", "{nm}: {} for {cap} of {full} entries", rvname(rv)); cx.hit(&format!("{nm} too small")); }
    else { ensure!(rv == CKR_OK && m as usize == full && b.data(full * esz) == want, "list-long", "{nm}: {} {m} entries for room of {cap}, {full} exist", rvname(rv)); }
    cx.nt();
    Ok(())
}

// ---------------------------------------------------------- operation state
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StateCase { h: u8, a: Hx, b: Hx, pol: Pol }
fn run_state(c: &StateCase, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (g.p, g.s);
    let t = &HT[c.h as usize];
    ensure!(p.digest_init(s, &Mech::new(t.ckm)) == CKR_OK, "init", "digest");
    ensure!(c.a.is_empty() || p.digest_update(s, &c.a) == CKR_OK, "update", "digest");
    let (rv, st) = call(&p, cx, "C_GetOperationState", c.pol, |b, l| F!(p.C_GetOperationState(s, b, l)))?;
    if rv == CKR_STATE_UNSAVEABLE {
        // refused, but the operation must go on as if nothing had been asked
        ensure!(p.digest_update(s, &c.b) == CKR_OK, "update", "digest after a refused save");
        let (rv, o) = p.digest_final(s);
        let w = t.h.hash(&[&c.a[..], &c.b[..]].concat());
        ensure!(rv == CKR_OK && o == w, "state-result", "{} after a refused save: {} {} instead of {}", t.name, rvname(rv), hex(&o), hex(&w));
        cx.hit(&format!("unsaveable {}", t.name)); cx.nt();
        return Ok(());
    }
    ensure!(rv == CKR_OK, "get-state", "{} after {} bytes: {}", t.name, c.a.len(), rvname(rv));
    let s2 = session(cx);
    let rv = p.set_state(s2.s, &st, 0, 0);
    ensure!(rv == CKR_OK, "set-state", "{}: {}", t.name, rvname(rv));
    for x in [s, s2.s] {
        ensure!(p.digest_update(x, &c.b) == CKR_OK, "update", "digest after state");
        let (rv, o) = p.digest_final(x);
        let w = t.h.hash(&[&c.a[..], &c.b[..]].concat());
        ensure!(rv == CKR_OK && o == w, "state-result", "{}: {} {} instead of {}", t.name, rvname(rv), hex(&o), hex(&w));
    }
    cx.nt();
    Ok(())
}

// ---------------------------------------------------------- message interface
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MsgCase { c: Ciph, data: Hx, cuts: Vec<u8>, oneshot: bool, pe: Vec<Pol>, pd: Vec<Pol> }
fn msgs() -> BoxedStrategy<MsgCase> {
    (ciph(&[Mode::Gcm, Mode::Ccm]), hx(1..=80usize), prop::collection::vec(any::<u8>(), 0..4), any::<bool>(), prop::collection::vec(tight(), 1..4), prop::collection::vec(tight(), 1..4))
        .prop_map(|(c, data, cuts, oneshot, pe, pd)| MsgCase { c, data, cuts, oneshot, pe, pd }).boxed()
}
fn run_msg(c: &MsgCase, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (g.p, g.s);
    let k = aes_obj(&p, s, &c.c.key);
    let m = Mech::new(if c.c.mode == Mode::Gcm { CKM_AES_GCM } else { CKM_AES_CCM });
    let want = c.c.enc(&c.data);
    let (wct, wtag) = want.split_at(c.data.len());
    let mut cuts: Vec<usize> = c.cuts.iter().map(|x| 1 + *x as usize * c.data.len() / 256).collect();
    cuts.push(c.data.len());
    cuts.sort(); cuts.dedup();
    for enc in [true, false] {
        let nm = format!("{} message {:?} {}", if enc { "encrypt" } else { "decrypt" }, c.c.mode, if c.oneshot { "one-shot" } else { "parts" });
        let rv = if enc { menc_init(&p, s, &m, k) } else { mdec_init(&p, s, &m, k) };
        ensure!(rv == CKR_OK, "init", "{nm}: init {}", rvname(rv));
        let mut mp = if enc { Mp::enc(&c.c, c.data.len()) } else { Mp::dec(&c.c, c.data.len(), wtag) };
        let input: &[u8] = if enc { &c.data } else { wct };
        let pols = if enc { &c.pe } else { &c.pd };
        let mut out = vec![];
        if c.oneshot {
            let (rv, o) = mcrypt(&p, s, cx, enc, pols[0], &mut mp, &c.c.aad, input)?;
            ensure!(rv == CKR_OK, "message", "{nm}: {}", rvname(rv));
            out = o;
        } else {
            let rv = mbegin(&p, s, enc, &mut mp, &c.c.aad);
            ensure!(rv == CKR_OK, "message", "{nm}: begin {}", rvname(rv));
            let mut a = 0;
            for (i, b) in cuts.iter().enumerate() {
                let (rv, o) = mnext(&p, s, cx, enc, pols[i % pols.len()], &mut mp, &input[a..*b], i + 1 == cuts.len())?;
                ensure!(rv == CKR_OK, "message", "{nm}: part {i} {}", rvname(rv));
                out.extend(o);
                a = *b;
            }
        }
        let w: &[u8] = if enc { wct } else { &c.data };
        ensure!(out == w, "message-result", "{nm}: {} instead of {}", hex(&out), hex(w));
        if enc { ensure!(mp.tag == wtag, "message-tag", "{nm}: tag {} instead of {}", hex(&mp.tag), hex(wtag)); }
        let rv = if enc { menc_final(&p, s) } else { mdec_final(&p, s) };
        ensure!(rv == CKR_OK, "message-final", "{nm}: {}", rvname(rv));
        cx.hit(&nm);
    }
    cx.nt();
    Ok(())
}

// ---------------------------------------------------------- random
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RndCase { n: u16 }
fn run_rnd(c: &RndCase, cx: &mut Cx) -> R {
    let g = session(cx);
    let n = c.n as usize % 600;
    let (rv, d) = g.p.random(g.s, n);
    if n == 0 { return Ok(()); }
    ensure!(rv == CKR_OK, "random", "{}", rvname(rv));
    ensure!(n < 24 || d.windows(16).all(|w| w != [0xA5u8; 16]), "random-short", "{n} bytes requested: {}", hex(&d));
    cx.nt();
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C21", level: "exploration", workers: 8, hang_s: 60,
        rule: "every output buffer lies between guard bytes and has exactly the announced, a shorter (down to zero) or a longer size; length queries are made in between; after BUFFER_TOO_SMALL the call is repeated with the announced size and must give the complete reference result; non-trivial: a complete result was compared",
        assumptions: &["what *pulLen holds after CKR_BUFFER_TOO_SMALL is not judged", "writes more than 64 bytes outside the buffer would be seen only if they crash"],
        groups: vec![gen_("operations", 40000, 1000000, tasks, run_task), gen_("rsa", 2500, 60000, rsas, run_rsa), gen_("wrap", 8000, 200000, wraps, run_wrap), gen_("attributes", 15000, 300000, attrs, run_attr),
            gen_("lists", 600, 10000, || (0u8..4, any::<u16>()).prop_map(|(which, n)| ListCase { which, n }).boxed(), run_list),
            gen_("state", 3000, 60000, || (0u8..11, hx(0..=200usize), hx(0..=100usize), tight()).prop_map(|(h, a, b, pol)| StateCase { h, a, b, pol }).boxed(), run_state),
            gen_("messages", 8000, 200000, msgs, run_msg), gen_("random", 2000, 20000, || any::<u16>().prop_map(|n| RndCase { n }).boxed(), run_rnd)],
    }
}
