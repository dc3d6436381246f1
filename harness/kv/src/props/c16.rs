//! C16: digests and MACs.
use crate::crypt::*;
use crate::ops::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::run::*;
use crate::tok::*;
use proptest::prelude::*;
use refc::hash;
use serde::{Deserialize, Serialize};

/// lengths around hash blocks and larger
fn longmsg() -> BoxedStrategy<Hx> {
    prop_oneof![
        3 => msg(),
        2 => (1usize..=6, prop::sample::select(vec![64usize, 72, 104, 128, 136, 144]), -18i32..=2).prop_flat_map(|(k, b, d)| hx(((k * b) as i32 + d) as usize)),
        1 => hx(1000..=5000usize),
    ].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Part { Data(u8), Key(Hx, bool) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Dig { h: u8, data: Hx, oneshot: bool, parts: Vec<Part>, pol: Pol }
fn digs() -> BoxedStrategy<Dig> {
    let part = prop_oneof![3 => any::<u8>().prop_map(Part::Data), 1 => (hx(1..=80usize), Just(false)).prop_map(|(k, a)| Part::Key(k, a)), 1 => aeskey().prop_map(|k| Part::Key(k, true))];
    (0u8..11, longmsg(), prop::bool::weighted(0.4), prop::collection::vec(part, 0..6), pol()).prop_map(|(h, data, oneshot, parts, pol)| Dig { h, data, oneshot, parts, pol }).boxed()
}
fn run_dig(c: &Dig, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (g.p, g.s);
    let t = &HT[c.h as usize];
    let rv = p.digest_init(s, &Mech::new(t.ckm));
    ensure!(rv == CKR_OK, "init", "{}: {}", t.name, rvname(rv));
    let mut all = vec![];
    let (rv, o) = if c.oneshot {
        all = c.data.0.clone();
        call(&p, cx, t.name, c.pol, |b, l| F!(p.C_Digest(s, dbytes(&c.data), ul(&c.data), b, l)))?
    } else {
        let mut rest = &c.data[..];
        let mut nk = 0;
        for x in &c.parts {
            match x {
                Part::Data(n) => {
                    let n = *n as usize * (rest.len() + 1) / 256;
                    let rv = p.digest_update(s, &rest[..n]);
                    ensure!(rv == CKR_OK, "update", "{}: {}", t.name, rvname(rv));
                    all.extend(&rest[..n]);
                    rest = &rest[n..];
                }
                Part::Key(k, a) => {
                    let o = secret(&p, s, if *a { CKK_AES } else { CKK_GENERIC_SECRET }, k, &[]);
                    let rv = p.digest_key(s, o);
                    ensure!(rv == CKR_OK, "digest-key", "{}: key of {} octets {}", t.name, k.len(), rvname(rv));
                    all.extend(&k.0);
                    nk += 1;
                }
            }
        }
        let rv = p.digest_update(s, rest);
        ensure!(rv == CKR_OK, "update", "{}: {}", t.name, rvname(rv));
        all.extend(rest);
        if nk > 0 { cx.hit("digested keys"); }
        call(&p, cx, t.name, c.pol, |b, l| F!(p.C_DigestFinal(s, b, l)))?
    };
    let w = t.h.hash(&all);
    ensure!(rv == CKR_OK && o == w, "digest", "{} of {} octets: {} {} instead of {}", t.name, all.len(), rvname(rv), hex(&o), hex(&w));
    cx.hit(&format!("{} {}", t.name, if c.oneshot { "one-shot" } else { "parts" }));
    cx.nt();
    Ok(())
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bad { No, Flip(u16), Cut(u8), Grow(u8), Zero, Data(u16), Key(u16), OtherHash, Empty }
fn bad() -> BoxedStrategy<Bad> {
    prop_oneof![3 => Just(Bad::No), 4 => any::<u16>().prop_map(Bad::Flip), 2 => (1u8..64).prop_map(Bad::Cut), 2 => (1u8..20).prop_map(Bad::Grow), 1 => Just(Bad::Zero),
        2 => any::<u16>().prop_map(Bad::Data), 1 => any::<u16>().prop_map(Bad::Key), 1 => Just(Bad::OtherHash), 1 => Just(Bad::Empty)].boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MacCase { m: Mac, /// use the key type of the mechanism
    typed: bool, /// requested length outside the range
    len: Option<u64>, data: Hx, cuts: Vec<u8>, oneshot: bool, pol: Pol, bad: Bad, via: u8 }
fn macs() -> BoxedStrategy<MacCase> {
    (mac(false), any::<bool>(), prop::option::weighted(0.08, prop_oneof![Just(0u64), 17u64..70, Just(u64::MAX), Just(1 << 32)]), longmsg(), prop::collection::vec(any::<u8>(), 0..4), any::<bool>(), pol(), bad(), 0u8..6)
        .prop_flat_map(|(m, typed, len, data, cuts, oneshot, pol, bad, via)| {
            // typed HMAC keys have the length of the hash
            let key = match (m.k, typed) { (MacK::Hmac(h) | MacK::HmacGen(h), true) => hx(HT[h as usize].h.len()), (MacK::Hmac(_) | MacK::HmacGen(_), false) => prop_oneof![3 => Just(m.key.clone()), 1 => hx(60..=300usize)].boxed(), _ => Just(m.key.clone()).boxed() };
            key.prop_map(move |key| MacCase { m: Mac { key, ..m.clone() }, typed, len, data: data.clone(), cuts: cuts.clone(), oneshot, pol, bad, via })
        }).boxed()
}
fn keyfor(p: &P, s: Sess, m: &Mac, typed: bool) -> Obj {
    match m.k {
        MacK::Hmac(h) | MacK::HmacGen(h) => secret(p, s, if typed { HT[h as usize].kt } else { CKK_GENERIC_SECRET }, &m.key, &[]),
        _ => aes_obj(p, s, &m.key),
    }
}
fn maxlen(m: &Mac) -> u64 { match m.k { MacK::HmacGen(h) => HT[h as usize].h.len() as u64, _ => 16 } }

fn run_mac(c: &MacCase, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (g.p, g.s);
    let k = keyfor(&p, s, &c.m, c.typed);
    let what = format!("{} {} key of {} octets, length {}", c.m.name(), if c.typed { "typed" } else { "generic" }, c.m.key.len(), c.m.n);
    if let (Some(l), MacK::HmacGen(_) | MacK::CmacGen | MacK::AesMacGen) = (c.len, c.m.k) {
        let l = if l <= 16 || l > maxlen(&c.m) { l } else { maxlen(&c.m) + 1 };
        let mm = Mech::with(c.m.mech().typ(), l as CK_ULONG);
        for rv in [p.sign_init(s, &mm, k), p.verify_init(s, &mm, k), p.vsig_init(s, &mm, k, &vec![0; l.min(100) as usize])] {
            ensure!(rv == CKR_MECHANISM_PARAM_INVALID, "bad-length-accepted", "{what}: a MAC of {l} octets is answered with {}", rvname(rv));
        }
        cx.hit("impossible length refused");
        cx.nt();
        return Ok(());
    }
    if c.data.is_empty() && matches!(c.m.k, MacK::AesMac | MacK::AesMacGen) { return Ok(()); }
    let want = c.m.value(&c.data).unwrap();
    let parts = |n: usize| -> Vec<(usize, usize)> { let mut v: Vec<usize> = c.cuts.iter().map(|x| *x as usize * (n + 1) / 256).collect(); v.push(n); v.sort(); let mut a = 0; v.into_iter().map(|b| { let r = (a, b); a = b; r }).collect() };
    // sign
    let rv = p.sign_init(s, &c.m.mech(), k);
    ensure!(rv == CKR_OK, "init", "{what}: {}", rvname(rv));
    let (rv, o) = if c.oneshot { call(&p, cx, &what, c.pol, |b, l| F!(p.C_Sign(s, dbytes(&c.data), ul(&c.data), b, l)))? } else {
        for (a, b) in parts(c.data.len()) { let rv = p.sign_update(s, &c.data[a..b]); ensure!(rv == CKR_OK, "update", "{what}: {}", rvname(rv)); }
        call(&p, cx, &what, c.pol, |b, l| F!(p.C_SignFinal(s, b, l)))?
    };
    ensure!(rv == CKR_OK && o == want, "mac", "{what} of {} octets: {} {} instead of {}", c.data.len(), rvname(rv), hex(&o), hex(&want));
    // verify something
    let mut tag = want.clone();
    let mut data = c.data.0.clone();
    let mut m = c.m.clone();
    match c.bad {
        Bad::No => {}
        Bad::Flip(b) => { let i = b as usize % (tag.len() * 8); tag[i / 8] ^= 1 << (i % 8); }
        Bad::Cut(n) => { let l = tag.len(); tag.truncate(l - (n as usize % l).max(1).min(l)); }
        Bad::Grow(n) => {
            // what a longer MAC would show
            let full = match m.k { MacK::HmacGen(h) => hash::hmac(HT[h as usize].h, &m.key, &data), MacK::CmacGen => refc::aes::cmac(&m.key, &data).to_vec(), MacK::AesMac | MacK::AesMacGen => refc::aes::cbcmac(&m.key, &data).to_vec(), _ => vec![] };
            for i in 0..n as usize { let x = full.get(tag.len()).copied().unwrap_or(i as u8); tag.push(x); }
        }
        Bad::Zero => tag.fill(0),
        Bad::Data(b) => { if data.is_empty() { data.push(0) } else { let i = b as usize % (data.len() * 8); data[i / 8] ^= 1 << (i % 8); } }
        Bad::Key(b) => { let i = b as usize % (m.key.len() * 8); m.key.0[i / 8] ^= 1 << (i % 8); }
        Bad::OtherHash => match m.k { MacK::Hmac(h) => m.k = MacK::Hmac((h + 1) % 11), MacK::HmacGen(h) => { m.k = MacK::HmacGen((h + 1) % 11); m.n = m.n.min(HT[(h as usize + 1) % 11].h.len() as u8) } _ => {} },
        Bad::Empty => tag.clear(),
    }
    let valid = m.value(&data).unwrap() == tag;
    let vk = keyfor(&p, s, &m, c.typed && !matches!(c.bad, Bad::OtherHash));
    let mech = m.mech();
    let via = ["C_Verify", "C_VerifyFinal", "C_VerifySignature", "C_VerifySignatureFinal"][c.via as usize % 4];
    let rv = match c.via % 4 {
        0 => p.ver(s, &mech, vk, &data, &tag),
        1 => {
            let rv = p.verify_init(s, &mech, vk);
            ensure!(rv == CKR_OK, "init", "{what}: {}", rvname(rv));
            for (a, b) in parts(data.len()) { let rv = p.verify_update(s, &data[a..b]); ensure!(rv == CKR_OK, "update", "{what}: {}", rvname(rv)); }
            p.verify_final(s, &tag)
        }
        x => {
            let rv = p.vsig_init(s, &mech, vk, &tag);
            if rv != CKR_OK { ensure!(rv == CKR_SIGNATURE_LEN_RANGE && tag.len() != m.value(&data).unwrap().len(), "init", "{what}: C_VerifySignatureInit with {} octets {}", tag.len(), rvname(rv)); rv }
            else if x == 2 { p.vsig(s, &data) } else {
                for (a, b) in parts(data.len()) { let rv = p.vsig_update(s, &data[a..b]); ensure!(rv == CKR_OK, "update", "{what}: {}", rvname(rv)); }
                p.vsig_final(s)
            }
        }
    };
    if valid { ensure!(rv == CKR_OK, "valid-refused", "{what}: {via} refuses the right value with {}", rvname(rv)); cx.hit("verified"); }
    else {
        ensure!(rv != CKR_OK, "forgery-accepted", "{what}: {via} accepts {} ({:?})", hex(&tag), c.bad);
        ensure!(matches!(rv, CKR_SIGNATURE_INVALID | CKR_SIGNATURE_LEN_RANGE), "refusal-code", "{what}: {via} refuses a wrong value ({:?}) with {}", c.bad, rvname(rv));
        cx.hit(&format!("refused {}", format!("{:?}", c.bad).split('(').next().unwrap()));
    }
    cx.hit(&format!("{} {via}", c.m.name()));
    cx.nt();
    Ok(())
}

/// TLS finished values
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tls { h: u8, key: Hx, server: bool, n: u8, old: bool, data: Hx, cuts: Vec<u8>, flip: Option<u16>, len: i8 }
fn tlss() -> BoxedStrategy<Tls> {
    (0u8..11, hx(1..=64usize), any::<bool>(), prop_oneof![3 => Just(12u8), 2 => 1u8..=200], any::<bool>(), msg(), prop::collection::vec(any::<u8>(), 0..4), prop::option::of(any::<u16>()), prop_oneof![4 => Just(0i8), 1 => -3i8..=3])
        .prop_map(|(h, key, server, n, old, data, cuts, flip, len)| Tls { h, key, server, n, old, data, cuts, flip, len }).boxed()
}
fn run_tls(c: &Tls, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (g.p, g.s);
    let t = &HT[c.h as usize];
    let k = secret(&p, s, CKK_GENERIC_SECRET, &c.key, &[]);
    let mech = Mech::with(if c.old { CKM_TLS12_MAC } else { CKM_TLS_MAC }, CK_TLS_MAC_PARAMS { prfHashMechanism: t.ckm, ulMacLength: c.n as CK_ULONG, ulServerOrClient: if c.server { 1 } else { 2 } });
    let want = refc::kdf::tls12(t.h, &c.key, if c.server { b"server finished" } else { b"client finished" }, &c.data, c.n as usize);
    let what = format!("TLS MAC {} of {} octets", t.name, c.n);
    let o = if c.cuts.is_empty() { p.sig(s, &mech, k, &c.data) } else {
        let rv = p.sign_init(s, &mech, k);
        ensure!(rv == CKR_OK, "init", "{what}: {}", rvname(rv));
        let mut v: Vec<usize> = c.cuts.iter().map(|x| *x as usize * (c.data.len() + 1) / 256).collect();
        v.push(c.data.len());
        v.sort();
        let mut a = 0;
        for b in v { let rv = p.sign_update(s, &c.data[a..b]); ensure!(rv == CKR_OK, "update", "{what}: {}", rvname(rv)); a = b; }
        let (rv, o) = p.sign_final(s);
        if rv == CKR_OK { Ok(o) } else { Err(rv) }
    };
    ensure!(o.as_ref() == Ok(&want), "tls-mac", "{what}: {:?} instead of {}", o.map(|x| hex(&x)).map_err(rvname), hex(&want));
    let mut tag = want.clone();
    if let Some(b) = c.flip { let i = b as usize % (tag.len() * 8); tag[i / 8] ^= 1 << (i % 8); }
    let nl = (tag.len() as i32 + c.len as i32).max(0) as usize;
    tag.resize(nl, 0);
    let rv = p.ver(s, &mech, k, &c.data, &tag);
    ensure!((rv == CKR_OK) == (tag == want), "tls-verify", "{what}: {} for {} where {} is right", rvname(rv), hex(&tag), hex(&want));
    cx.hit(&format!("{} TLS", t.name));
    cx.nt();
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C16", level: "exploration", workers: 8, hang_s: 60,
        rule: "11 digests, HMAC (full and truncated) on generic and typed keys, AES CMAC and MAC (full and truncated) and TLS MAC over messages up to 5000 octets with lengths around the block boundaries, in one or several parts with keys digested in between, compared with a reference; verification of the right value and of values with flipped, missing or additional octets, other data, key or hash, through the four verify interfaces; non-trivial: a value or verdict was compared",
        assumptions: &["CBC-MAC of no data is left out"],
        groups: vec![gen_("digests", 40000, 1000000, digs, run_dig), gen_("macs", 60000, 2000000, macs, run_mac), gen_("tls-mac", 15000, 300000, tlss, run_tls)],
    }
}
