//! C15: RSA and ECDSA signatures, RSA encryption, against independent implementations.
use crate::crypt::*;
use crate::ops::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::run::*;
use crate::rsakeys::KEYS;
use crate::tok::*;
use num_bigint::BigUint;
use proptest::prelude::*;
use refc::ec::Curve;
use refc::rsa::*;
use serde::{Deserialize, Serialize};

/// keys by cost: small ones are used more often
fn keyidx() -> BoxedStrategy<u8> { prop_oneof![12 => 0u8..5, 3 => Just(5u8), 2 => 6u8..9, 1 => Just(9u8)].boxed() }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Sch { P15(u8), P15Raw, X509, Pss { h: u8, mgf: u8, salt: u16, raw: bool } }
impl Sch {
    fn name(&self) -> String {
        match self { Sch::P15(h) => format!("{}-RSA-PKCS", HT[*h as usize].name), Sch::P15Raw => "RSA-PKCS".into(), Sch::X509 => "RSA-X509".into(), Sch::Pss { h, mgf, raw, .. } => format!("{}PSS {} mgf {}", if *raw { "raw " } else { "" }, HT[*h as usize].name, HT[*mgf as usize].name) }
    }
    fn slen(&self, n: &BigUint) -> u64 {
        let Sch::Pss { h, salt, .. } = self else { return 0 };
        let hl = HT[*h as usize].h.len() as u64;
        let max = (n.bits() - 1).div_ceil(8).saturating_sub(hl + 2);
        match salt % 8 { 0 | 1 | 2 => hl, 3 => 0, 4 => max, 5 => max + 1 + (*salt as u64 / 8) % 5, _ => (*salt as u64 / 8) % (max + 1) }
    }
    fn mech(&self, slen: u64) -> Mech {
        match self {
            Sch::P15(h) => Mech::new(HT[*h as usize].rsa),
            Sch::P15Raw => Mech::new(CKM_RSA_PKCS),
            Sch::X509 => Mech::new(CKM_RSA_X_509),
            Sch::Pss { h, mgf, raw, .. } => Mech::with(if *raw { CKM_RSA_PKCS_PSS } else { HT[*h as usize].pss }, CK_RSA_PKCS_PSS_PARAMS { hashAlg: HT[*h as usize].ckm, mgf: HT[*mgf as usize].mgf, sLen: slen as CK_ULONG }),
        }
    }
    fn oneshot(&self) -> bool { matches!(self, Sch::P15Raw | Sch::X509 | Sch::Pss { raw: true, .. }) }
    /// bring the data to what the mechanism takes
    fn data(&self, d: &[u8], k: usize, n: &BigUint) -> Vec<u8> {
        match self {
            Sch::P15Raw => if d.is_empty() { vec![0x5a] } else { d[..d.len().min(k - 11)].to_vec() },
            Sch::X509 => i2osp(&(os2ip(d) % n), k),
            Sch::Pss { raw: true, h, .. } => HT[*h as usize].h.hash(d),
            _ => d.to_vec(),
        }
    }
    fn encode(&self, d: &[u8], key: &Priv, slen: u64, salt: &[u8]) -> Option<Vec<u8>> {
        let k = key.p.k();
        match self {
            Sch::P15(h) => emsa15_hash(HT[*h as usize].h, d, k),
            Sch::P15Raw => emsa15(d, k),
            Sch::X509 => Some(d.to_vec()),
            Sch::Pss { h, mgf, raw, .. } => {
                let hh = HT[*h as usize].h;
                let mh = if *raw { d.to_vec() } else { hh.hash(d) };
                let mut s: Vec<u8> = salt.to_vec();
                s.resize(slen as usize, 0x3c);
                pss_encode(&mh, hh, HT[*mgf as usize].h, &s, key.p.n.bits() as usize - 1)
            }
        }
    }
    fn valid(&self, key: &Pub, d: &[u8], sig: &[u8], slen: u64) -> bool {
        let k = key.k();
        if sig.len() != k || os2ip(sig) >= key.n { return false; }
        let em = key.raw(sig);
        match self {
            Sch::P15(h) => emsa15_hash(HT[*h as usize].h, d, k) == Some(em),
            Sch::P15Raw => emsa15(d, k) == Some(em),
            Sch::X509 => em == d,
            Sch::Pss { h, mgf, raw, .. } => {
                let hh = HT[*h as usize].h;
                let mh = if *raw { d.to_vec() } else { hh.hash(d) };
                let eb = key.n.bits() as usize - 1;
                let el = eb.div_ceil(8);
                if em[..k - el].iter().any(|x| *x != 0) { return false; }
                slen + hh.len() as u64 + 2 <= el as u64 && pss_verify(&mh, hh, HT[*mgf as usize].h, slen as usize, &em[k - el..], eb)
            }
        }
    }
}
fn sch() -> BoxedStrategy<Sch> {
    let n = NSIGH as u8;
    prop_oneof![3 => (0..n).prop_map(Sch::P15), 2 => Just(Sch::P15Raw), 1 => Just(Sch::X509),
        4 => (0..n, 0..n, any::<bool>(), any::<u16>(), any::<bool>()).prop_map(|(h, m, same, salt, raw)| Sch::Pss { h, mgf: if same { h } else { m }, salt, raw })].boxed()
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum SBad { No, Flip(u16), Data(u16), OtherKey, Len(i8), AddN, Zero, OtherHash, Salt(i8), Mgf, /// malformed encoding, properly signed
    Malformed(u8), OtherScheme }
fn sbad() -> BoxedStrategy<SBad> {
    prop_oneof![4 => Just(SBad::No), 4 => any::<u16>().prop_map(SBad::Flip), 2 => any::<u16>().prop_map(SBad::Data), 1 => Just(SBad::OtherKey), 2 => (-4i8..=4).prop_map(SBad::Len), 1 => Just(SBad::AddN), 1 => Just(SBad::Zero),
        1 => Just(SBad::OtherHash), 1 => prop_oneof![-3i8..0, 1i8..=3].prop_map(SBad::Salt), 1 => Just(SBad::Mgf), 5 => any::<u8>().prop_map(SBad::Malformed), 1 => Just(SBad::OtherScheme)].boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RsaSig { key: u8, crt: bool, s: Sch, data: Hx, salt: Hx, lib: bool, cuts: Vec<u8>, parts: bool, pol: Pol, bad: SBad, via: u8 }
fn rsasigs() -> BoxedStrategy<RsaSig> {
    (keyidx(), prop::bool::weighted(0.8), sch(), msg(), hx(0..=64usize), any::<bool>(), prop::collection::vec(any::<u8>(), 0..4), any::<bool>(), pol(), sbad(), 0u8..4)
        .prop_map(|(key, crt, s, data, salt, lib, cuts, parts, pol, bad, via)| RsaSig { key, crt, s, data, salt, lib, cuts, parts, pol, bad, via }).boxed()
}
fn cutpoints(cuts: &[u8], n: usize) -> Vec<(usize, usize)> {
    let mut v: Vec<usize> = cuts.iter().map(|x| *x as usize * (n + 1) / 256).collect();
    v.push(n);
    v.sort();
    let mut a = 0;
    v.into_iter().map(|b| { let r = (a, b); a = b; r }).collect()
}
/// verification through one of the interfaces
fn verify(p: &P, s: Sess, via: u8, oneshot: bool, m: &Mech, k: Obj, d: &[u8], sig: &[u8], cuts: &[u8]) -> (&'static str, Rv) {
    let via = if oneshot { via & 2 } else { via };
    match via {
        0 => ("C_Verify", p.ver(s, m, k, d, sig)),
        1 => {
            let mut rv = p.verify_init(s, m, k);
            for (a, b) in cutpoints(cuts, d.len()) { if rv == CKR_OK { rv = p.verify_update(s, &d[a..b]); } }
            if rv == CKR_OK { rv = p.verify_final(s, sig); }
            ("C_VerifyFinal", rv)
        }
        2 => { let mut rv = p.vsig_init(s, m, k, sig); if rv == CKR_OK { rv = p.vsig(s, d); } ("C_VerifySignature", rv) }
        _ => {
            let mut rv = p.vsig_init(s, m, k, sig);
            for (a, b) in cutpoints(cuts, d.len()) { if rv == CKR_OK { rv = p.vsig_update(s, &d[a..b]); } }
            if rv == CKR_OK { rv = p.vsig_final(s); }
            ("C_VerifySignatureFinal", rv)
        }
    }
}
fn refusal(what: &str, via: &str, rv: Rv, bad: &str) -> R {
    ensure!(matches!(rv, CKR_SIGNATURE_INVALID | CKR_SIGNATURE_LEN_RANGE | CKR_DATA_LEN_RANGE | CKR_MECHANISM_PARAM_INVALID | CKR_KEY_SIZE_RANGE | CKR_DEVICE_ERROR | CKR_GENERAL_ERROR), "refusal-code", "{what}: {via} answers a wrong signature ({bad}) with {}", rvname(rv));
    Ok(())
}

fn run_rsa(c: &RsaSig, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (g.p, g.s);
    let k = &KEYS[c.key as usize];
    let key = rsa_ref(k);
    let kl = key.p.k();
    let d = c.s.data(&c.data, kl, &key.p.n);
    let slen = c.s.slen(&key.p.n);
    let em = c.s.encode(&d, &key, slen, &c.salt);
    let what = format!("{} with RSA-{}, salt {slen}", c.s.name(), k.bits);
    let sk = must(&p, s, &rsa_priv_tmpl(k, c.crt), "rsa private key");
    let pk = must(&p, s, &rsa_pub_tmpl(k), "rsa public key");
    let mech = c.s.mech(slen);
    let parts = c.parts && !c.s.oneshot();
    // the library signs
    let mut sig = vec![];
    if c.lib || em.is_none() {
        let mut rv = p.sign_init(s, &mech, sk);
        let mut o = vec![];
        if rv == CKR_OK {
            if parts { for (a, b) in cutpoints(&c.cuts, d.len()) { if rv == CKR_OK { rv = p.sign_update(s, &d[a..b]); } } }
            if rv == CKR_OK { (rv, o) = if parts { call(&p, cx, &what, c.pol, |b, l| F!(p.C_SignFinal(s, b, l)))? } else { call(&p, cx, &what, c.pol, |b, l| F!(p.C_Sign(s, dbytes(&d), ul(&d), b, l)))? }; }
        }
        if em.is_none() {
            ensure!(rv != CKR_OK, "impossible-signature", "{what}: signing succeeds with {}", hex(&o));
            F!(p.C_SignInit(s, std::ptr::null_mut(), 0));
            cx.hit("impossible parameters refused");
            cx.nt();
            return Ok(());
        }
        ensure!(rv == CKR_OK, "sign", "{what} of {} octets: {}", d.len(), rvname(rv));
        ensure!(c.s.valid(&key.p, &d, &o, slen), "signature", "{what}: the signature {} of {} is not valid", hex(&o), hex(&d));
        if !matches!(c.s, Sch::Pss { .. }) { ensure!(o == key.raw(em.as_ref().unwrap()), "signature", "{what}: {} instead of {}", hex(&o), hex(&key.raw(em.as_ref().unwrap()))); }
        cx.hit("library signs");
        sig = o;
    }
    let em = em.unwrap();
    if sig.is_empty() { sig = key.raw(&em); }
    // altered presentation
    let (mut d2, mut sch2, mut slen2, mut vkey, mut pk2) = (d.clone(), c.s.clone(), slen, key.p.clone(), pk);
    match c.bad {
        SBad::No => {}
        SBad::Flip(b) => { let i = b as usize % (sig.len() * 8); sig[i / 8] ^= 1 << (i % 8); }
        SBad::Data(b) => { if d2.is_empty() { d2.push(1) } else { let i = b as usize % (d2.len() * 8); d2[i / 8] ^= 1 << (i % 8); } }
        SBad::OtherKey => { let o = &KEYS[[1usize, 0, 0, 0, 0, 0, 7, 6, 0, 0][c.key as usize]]; vkey = rsa_ref(o).p; pk2 = must(&p, s, &rsa_pub_tmpl(o), "rsa public key"); }
        SBad::Len(n) => if n >= 0 { sig.extend(vec![0; n as usize]) } else if n == -4 { sig.insert(0, 0) } else { let l = sig.len(); sig.truncate(l - (-n) as usize) },
        SBad::AddN => { let v = os2ip(&sig) + &key.p.n; if (v.bits() as usize) <= kl * 8 { sig = i2osp(&v, kl); } }
        SBad::Zero => sig.fill(0),
        SBad::OtherHash => match &mut sch2 { Sch::P15(h) => *h = (*h + 1) % NSIGH as u8, Sch::Pss { h, raw: false, .. } => *h = (*h + 1) % NSIGH as u8, _ => {} },
        SBad::Salt(n) => if matches!(c.s, Sch::Pss { .. }) { slen2 = (slen as i64 + n as i64).max(0) as u64 },
        SBad::Mgf => if let Sch::Pss { mgf, .. } = &mut sch2 { *mgf = (*mgf + 1) % NSIGH as u8 },
        SBad::OtherScheme => match &c.s { Sch::P15(h) => sch2 = Sch::Pss { h: *h, mgf: *h, salt: 0, raw: false }, Sch::Pss { h, raw: false, .. } => sch2 = Sch::P15(*h), Sch::P15Raw => { sch2 = Sch::X509; d2 = em.clone() } _ => {} },
        SBad::Malformed(v) => {
            let mut e = i2osp(&os2ip(&em), kl);
            match &c.s {
                Sch::X509 => {}
                Sch::Pss { .. } => { let l = e.len(); match v % 6 { 0 => e[l - 1] ^= 0x70, 1 => e[kl - (key.p.n.bits() as usize - 1).div_ceil(8)] |= 0x80 >> (v as u32 / 6 % 2), 2 => e[l - 2] ^= 1, 3 => { let i = (v as usize * 7) % (l - 40); e[i.max(1)] ^= 4 } 4 => e[0] |= 1, _ => e[l - 1] = 0xcc } }
                _ => {
                    // 00 01 ff.. 00 T
                    let t = e.iter().skip(2).position(|x| *x == 0).map(|i| i + 3).unwrap_or(kl);
                    let tt = e[t..].to_vec();
                    match v % 9 {
                        // shorter padding, garbage behind
                        0 => { let g = (v as usize % 40).min(t - 4).max(1); let mut n = vec![0, 1]; n.extend(vec![0xff; t - 3 - g]); n.push(0); n.extend(&tt); n.extend((0..g).map(|i| i as u8 ^ v)); e = n; }
                        1 => { let mut n = vec![0, 1]; n.extend(vec![0xff; 8.min(t - 3)]); n.push(0); n.extend(&tt); n.resize(kl, 0); e = n; }
                        2 => e[1] = 2,
                        3 => { let i = 2 + v as usize % (t - 3); e[i] = 0xfe; }
                        4 => e[t - 1] = 0xff,
                        5 => e[1] = 0,
                        // DigestInfo without the NULL parameter
                        6 => if let Sch::P15(h) = &c.s { let mut di = digestinfo(HT[*h as usize].h); let l = di.len(); di.drain(l - 4..l - 2); di[1] -= 2; di[3] -= 2; let hv = HT[*h as usize].h.hash(&d); if let Some(x) = emsa15(&[di, hv].concat(), kl) { e = x } },
                        // the bare hash, without DigestInfo
                        7 => if let Sch::P15(h) = &c.s { let hv = HT[*h as usize].h.hash(&d); if let Some(x) = emsa15(&hv, kl) { e = x } },
                        // longer length octets in the DigestInfo
                        _ => if let Sch::P15(h) = &c.s { let di = digestinfo(HT[*h as usize].h); let hv = HT[*h as usize].h.hash(&d); let mut n = vec![0x30, 0x81, di[1]]; n.extend(&di[2..]); if let Some(x) = emsa15(&[n, hv].concat(), kl) { e = x } },
                    }
                }
            }
            if os2ip(&e) < key.p.n { sig = key.raw(&e); }
        }
    }
    let valid = sch2.valid(&vkey, &d2, &sig, slen2);
    let (via, rv) = verify(&p, s, c.via, sch2.oneshot(), &sch2.mech(slen2), pk2, &d2, &sig, &c.cuts);
    let bn = format!("{:?}", c.bad);
    if valid { ensure!(rv == CKR_OK, "valid-refused", "{what}: {via} refuses a valid signature ({bn}) with {}", rvname(rv)); cx.hit("verified"); }
    else { ensure!(rv != CKR_OK, "forgery-accepted", "{what}: {via} accepts the signature {} ({bn})", hex(&sig)); refusal(&what, via, rv, &bn)?; cx.hit(&format!("refused {}", bn.split('(').next().unwrap())); }
    cx.hit(&format!("{} {via}", c.s.name().split(' ').next().unwrap()));
    cx.nt();
    Ok(())
}

// ------------------------------------------------------------------- ECDSA
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum EBad { No, Flip(u16), Data(u16), OtherKey, Len(i8), NegS, Swap, Zero(u8), AddN(bool), OtherHash, R1, NegKey, LongHalf }
fn ebad() -> BoxedStrategy<EBad> {
    prop_oneof![4 => Just(EBad::No), 4 => any::<u16>().prop_map(EBad::Flip), 2 => any::<u16>().prop_map(EBad::Data), 1 => Just(EBad::OtherKey), 3 => (-4i8..=4).prop_map(EBad::Len), 1 => Just(EBad::NegS), 1 => Just(EBad::Swap),
        2 => (0u8..3).prop_map(EBad::Zero), 2 => any::<bool>().prop_map(EBad::AddN), 1 => Just(EBad::OtherHash), 1 => Just(EBad::R1), 1 => Just(EBad::NegKey), 1 => Just(EBad::LongHalf)].boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EcSig { curve: u8, d: Hx, k: Hx, h: Option<u8>, data: Hx, lib: bool, parts: bool, cuts: Vec<u8>, pol: Pol, bad: EBad, via: u8 }
fn ecsigs() -> BoxedStrategy<EcSig> {
    (prop_oneof![4 => Just(0u8), 2 => Just(1u8), 2 => Just(2u8)], hx(70), hx(70), prop::option::weighted(0.7, 0u8..NSIGH as u8), msg(), any::<bool>(), any::<bool>(), prop::collection::vec(any::<u8>(), 0..4), pol(), ebad(), 0u8..4)
        .prop_map(|(curve, d, k, h, data, lib, parts, cuts, pol, bad, via)| EcSig { curve, d, k, h, data, lib, parts, cuts, pol, bad, via }).boxed()
}
pub fn curves() -> &'static Vec<Curve> { static C: std::sync::OnceLock<Vec<Curve>> = std::sync::OnceLock::new(); C.get_or_init(refc::ec::all) }
fn scalar(c: &Curve, x: &[u8]) -> BigUint { os2ip(x) % (&c.n - 1u32) + 1u32 }

fn run_ec(c: &EcSig, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (g.p, g.s);
    let cv = &curves()[c.curve as usize];
    let fl = cv.flen();
    let d = scalar(cv, &c.d);
    let q = cv.pubkey(&d);
    let sk = ec_priv(&p, s, &cv.oid, &i2osp(&d, fl));
    let pk = ec_pub(&p, s, &cv.oid, &cv.enc(&q));
    // plain ECDSA takes a hash value
    let mut data = c.data.0.clone();
    if c.h.is_none() { if data.is_empty() { data.push(5) } data.truncate(64); }
    let mech = Mech::new(c.h.map(|h| HT[h as usize].ecdsa).unwrap_or(CKM_ECDSA));
    let hv = |h: Option<u8>, d: &[u8]| h.map(|h| HT[h as usize].h.hash(d)).unwrap_or(d.to_vec());
    let what = format!("ECDSA {} on {}", c.h.map(|h| HT[h as usize].name).unwrap_or("raw"), cv.name);
    let mut sig;
    if c.lib {
        let parts = c.parts && c.h.is_some();
        let mut rv = p.sign_init(s, &mech, sk);
        let mut o = vec![];
        if parts { for (a, b) in cutpoints(&c.cuts, data.len()) { if rv == CKR_OK { rv = p.sign_update(s, &data[a..b]); } } }
        if rv == CKR_OK { (rv, o) = if parts { call(&p, cx, &what, c.pol, |b, l| F!(p.C_SignFinal(s, b, l)))? } else { call(&p, cx, &what, c.pol, |b, l| F!(p.C_Sign(s, dbytes(&data), ul(&data), b, l)))? }; }
        ensure!(rv == CKR_OK, "sign", "{what} of {} octets: {}", data.len(), rvname(rv));
        ensure!(cv.ecdsa_verify(&q, &hv(c.h, &data), &o), "signature", "{what}: signature {} by key {} of {} is not valid", hex(&o), hex(&i2osp(&d, fl)), hex(&data));
        sig = o;
        cx.hit("library signs");
    } else { sig = cv.ecdsa_sign(&d, &hv(c.h, &data), &scalar(cv, &c.k)).unwrap(); }
    let (mut d2, mut h2, mut q2, mut pk2) = (data.clone(), c.h, q.clone(), pk);
    let half = |sig: &[u8]| (os2ip(&sig[..fl]), os2ip(&sig[fl..]));
    let join = |r: &BigUint, s: &BigUint| [i2osp(r, fl), i2osp(s, fl)].concat();
    let zero = BigUint::from(0u32);
    let (r0, s0) = half(&sig);
    match c.bad {
        EBad::No => {}
        EBad::Flip(b) => { let i = b as usize % (sig.len() * 8); sig[i / 8] ^= 1 << (i % 8); }
        EBad::Data(b) => { let i = b as usize % (d2.len().max(1) * 8); if d2.is_empty() { d2.push(1) } else { d2[i / 8] ^= 1 << (i % 8); } }
        EBad::OtherKey => { q2 = cv.add(&Some(q.clone()), &Some(cv.g.clone())).unwrap_or(cv.g.clone()); pk2 = ec_pub(&p, s, &cv.oid, &cv.enc(&q2)); }
        EBad::NegKey => { q2 = (q.0.clone(), &cv.p - &q.1); pk2 = ec_pub(&p, s, &cv.oid, &cv.enc(&q2)); }
        EBad::Len(n) => if n > 0 { sig.extend(vec![0; n as usize]) } else if n < 0 { let l = sig.len(); sig.truncate(l - (-n) as usize) },
        // an additional zero in front of each half
        EBad::LongHalf => { let mut v = vec![0]; v.extend(&sig[..fl]); v.push(0); v.extend(&sig[fl..]); sig = v; }
        EBad::NegS => sig = join(&r0, &(&cv.n - &s0)),
        EBad::Swap => sig = join(&s0, &r0),
        EBad::Zero(w) => sig = join(if w == 1 { &r0 } else { &zero }, if w == 0 { &s0 } else { &zero }),
        EBad::AddN(w) => { let (r, s) = if w { (&r0 + &cv.n, s0.clone()) } else { (r0.clone(), &s0 + &cv.n) }; if r.bits().div_ceil(8) as usize <= fl && s.bits().div_ceil(8) as usize <= fl { sig = join(&r, &s); cx.hit("component beyond the order"); } }
        EBad::OtherHash => if let Some(h) = c.h { h2 = Some((h + 1) % NSIGH as u8) },
        EBad::R1 => sig = join(&BigUint::from(1u32), &BigUint::from(1u32)),
    }
    let valid = cv.ecdsa_verify(&q2, &hv(h2, &d2), &sig);
    let m2 = Mech::new(h2.map(|h| HT[h as usize].ecdsa).unwrap_or(CKM_ECDSA));
    let (via, rv) = verify(&p, s, c.via, h2.is_none(), &m2, pk2, &d2, &sig, &c.cuts);
    let bn = format!("{:?}", c.bad);
    if valid { ensure!(rv == CKR_OK, "valid-refused", "{what}: {via} refuses the valid signature {} ({bn}) with {}", hex(&sig), rvname(rv)); cx.hit("verified"); }
    else { ensure!(rv != CKR_OK, "forgery-accepted", "{what}: {via} accepts the signature {} ({bn})", hex(&sig)); refusal(&what, via, rv, &bn)?; cx.hit(&format!("refused {}", bn.split('(').next().unwrap())); }
    cx.hit(&format!("{what} {via}"));
    cx.nt();
    Ok(())
}

// ------------------------------------------------------------------- RSA encryption
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum CBad { No, Flip(u16), Len(i8), AddN, Em(u8), Label, Hash, Mgf, Zero }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Enc { key: u8, crt: bool, e: RsaEnc, len: u16, fill: Hx, seed: Hx, lib: bool, bad: CBad, pol: Pol }
fn encs() -> BoxedStrategy<Enc> {
    let bad = prop_oneof![4 => Just(CBad::No), 2 => any::<u16>().prop_map(CBad::Flip), 2 => (-3i8..=3).prop_map(CBad::Len), 1 => Just(CBad::AddN), 5 => any::<u8>().prop_map(CBad::Em), 1 => Just(CBad::Label), 1 => Just(CBad::Hash), 1 => Just(CBad::Mgf), 1 => Just(CBad::Zero)];
    (keyidx(), prop::bool::weighted(0.8), rsaenc(), any::<u16>(), hx(400), hx(64), any::<bool>(), bad, pol()).prop_map(|(key, crt, e, len, fill, seed, lib, bad, pol)| Enc { key, crt, e, len, fill, seed, lib, bad, pol }).boxed()
}
fn run_enc(c: &Enc, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (g.p, g.s);
    let k = &KEYS[c.key as usize];
    let key = rsa_ref(k);
    let kl = key.p.k();
    let sk = must(&p, s, &rsa_priv_tmpl(k, c.crt), "rsa private key");
    let pk = must(&p, s, &rsa_pub_tmpl(k), "rsa public key");
    let en = format!("{:?}", c.e);
    let what = format!("{en} with RSA-{}", k.bits);
    let Some(max) = c.e.max(kl) else {
        let rv = p.encrypt_init(s, &c.e.mech(), pk);
        ensure!(rv != CKR_OK, "impossible-parameters", "{what}: encryption starts");
        cx.hit("impossible parameters refused");
        return Ok(());
    };
    let ml = match c.len % 6 { 0 => 0, 1 => max, 2 => max.saturating_sub(1), _ => c.len as usize / 6 % (max + 1) };
    let m = if c.e == RsaEnc::Raw { i2osp(&(os2ip(&c.fill[..kl]) % &key.p.n), kl) } else { c.fill[..ml].to_vec() };
    let encode = |m: &[u8]| -> Vec<u8> {
        match &c.e {
            RsaEnc::Raw => m.to_vec(),
            RsaEnc::Pkcs => { let mut e = vec![0, 2]; e.extend((0..kl - 3 - m.len()).map(|i| c.seed[i % 64] | 1)); e.push(0); e.extend(m); e }
            RsaEnc::Oaep { h, mgf, label } => { let hh = HT[*h as usize].h; oaep_encode(m, hh, HT[*mgf as usize].h, label, &c.seed[..hh.len()], kl).unwrap() }
        }
    };
    let mut ct;
    if c.lib {
        let rv = p.encrypt_init(s, &c.e.mech(), pk);
        ensure!(rv == CKR_OK, "init", "{what}: {}", rvname(rv));
        let (rv, o) = call(&p, cx, "C_Encrypt", c.pol, |b, l| F!(p.C_Encrypt(s, dbytes(&m), ul(&m), b, l)))?;
        ensure!(rv == CKR_OK && o.len() == kl, "encrypt", "{what} of {} octets: {} length {}", m.len(), rvname(rv), o.len());
        let d = c.e.decode(&key.raw(&o));
        ensure!(d.as_ref() == Some(&m), "ciphertext", "{what}: {} decrypts to {:?} instead of {}", hex(&o), d.map(|x| hex(&x)), hex(&m));
        // beyond the limit
        if c.e != RsaEnc::Raw {
            let rv = p.encrypt_init(s, &c.e.mech(), pk);
            ensure!(rv == CKR_OK, "init", "{what}: {}", rvname(rv));
            let (rv, _) = p.encrypt(s, &c.fill[..max + 1]);
            ensure!(rv != CKR_OK, "too-long-accepted", "{what}: {} octets are encrypted", max + 1);
        }
        cx.hit("library encrypts");
        ct = o;
    } else { ct = key.p.raw(&encode(&m)); }
    let mut e2 = c.e.clone();
    match c.bad {
        CBad::No => {}
        CBad::Flip(b) => { let i = b as usize % (ct.len() * 8); ct[i / 8] ^= 1 << (i % 8); }
        CBad::Len(n) => if n > 0 { ct.extend(vec![0; n as usize]) } else if n < 0 { let l = ct.len(); ct.truncate(l - (-n) as usize) },
        CBad::AddN => { let v = os2ip(&ct) + &key.p.n; if v.bits() as usize <= kl * 8 { ct = i2osp(&v, kl); } }
        CBad::Zero => ct.fill(0),
        CBad::Label => if let RsaEnc::Oaep { label, .. } = &mut e2 { label.0.push(7) },
        CBad::Hash => if let RsaEnc::Oaep { h, .. } = &mut e2 { *h = (*h + 1) % NSIGH as u8 },
        CBad::Mgf => if let RsaEnc::Oaep { mgf, .. } = &mut e2 { *mgf = (*mgf + 1) % NSIGH as u8 },
        CBad::Em(v) => {
            let mut e = encode(&m);
            match &c.e {
                RsaEnc::Raw => {}
                RsaEnc::Pkcs => match v % 6 {
                    0 => e[0] = 1, 1 => e[1] = 1, 2 => { for b in e[2..].iter_mut() { if *b == 0 { *b = 9 } } }
                    3 => e[2 + v as usize % 8] = 0, 4 => { e[1] = 0 } _ => { let i = 10 + v as usize % (kl - 10); e[i] = 0 }
                },
                RsaEnc::Oaep { .. } => match v % 4 { 0 => e[0] = 1, 1 => { let i = 1 + v as usize % (kl - 1); e[i] ^= 0x10 } 2 => { let l = e.len(); e[l - 1 - v as usize % 20] ^= 1 } _ => e[0] = 0xff },
            }
            let v = os2ip(&e);
            if v < key.p.n { ct = key.p.raw(&e); }
        }
    }
    if e2.max(kl).is_none() { return Ok(()); }
    let num = os2ip(&ct);
    let em = key.raw(&ct);
    let want = if ct.len() > kl || num >= key.p.n { None } else { e2.decode(&em) };
    let rv = p.decrypt_init(s, &e2.mech(), sk);
    ensure!(rv == CKR_OK, "init", "{what}: decrypt {}", rvname(rv));
    let (rv, o) = call(&p, cx, "C_Decrypt", c.pol, |b, l| F!(p.C_Decrypt(s, dbytes(&ct), ul(&ct), b, l)))?;
    if rv != CKR_OK { F!(p.C_DecryptInit(s, std::ptr::null_mut(), 0)); }
    let bn = format!("{:?}", c.bad);
    match want {
        Some(w) => {
            // shorter input may be refused for its length
            if ct.len() < kl && rv != CKR_OK { cx.hit("short ciphertext refused"); cx.nt(); return Ok(()); }
            ensure!(rv == CKR_OK && o == w, "decrypt", "{what} ({bn}): {} {} instead of {}", rvname(rv), hex(&o), hex(&w));
            cx.hit("decrypted");
        }
        None => {
            // PKCS#1 v1.5 may answer with a random message instead of an error
            let implicit = rv == CKR_OK && e2 == RsaEnc::Pkcs && ct.len() <= kl && num < key.p.n && (o.len() < 4 || !em.ends_with(&o));
            ensure!(rv != CKR_OK || implicit, "malformed-accepted", "{what} ({bn}): ciphertext {} decrypts to {}", hex(&ct), hex(&o));
            cx.hit(&format!("{} {}", if implicit { "implicit rejection" } else { "refused" }, bn.split('(').next().unwrap()));
        }
    }
    cx.hit(&format!("{} {}", en.split(' ').next().unwrap(), if c.lib { "by library" } else { "by reference" }));
    cx.nt();
    Ok(())
}

/// PSS parameters that contradict the mechanism: nothing may be signed or accepted with them
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PssBad { key: u8, mech: u8, hash: u8, mgf: u8, salt: u8, data: Hx, rnd: Hx, how: u8 }
fn pssbads() -> BoxedStrategy<PssBad> {
    let n = NSIGH as u8;
    (0u8..5, 0..n, 0..=n + 2, 0..=n + 1, 0u8..=20, msg(), hx(20..=20usize), 0u8..6).prop_map(|(key, mech, hash, mgf, salt, data, rnd, how)| PssBad { key, mech, hash, mgf, salt, data, rnd, how }).boxed()
}
fn run_pssbad(c: &PssBad, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (g.p, g.s);
    let k = &KEYS[c.key as usize];
    let key = rsa_ref(k);
    let n = NSIGH as u8;
    let hash = if c.hash < n { HT[c.hash as usize].ckm } else { [CKM_MD5, 0, HT[(c.mech as usize + 1) % NSIGH].pss][(c.hash - n) as usize] };
    let mgf = if c.mgf < n { HT[c.mgf as usize].mgf } else { [0, 0x7777][(c.mgf - n) as usize] };
    if c.hash == c.mech && c.mgf < n { return Ok(()); }
    let m = Mech::with(HT[c.mech as usize].pss, CK_RSA_PKCS_PSS_PARAMS { hashAlg: hash, mgf, sLen: c.salt as CK_ULONG });
    let what = format!("{} with hashAlg {hash:#x}, mask generation {mgf:#x}, salt {}, RSA-{}", HT[c.mech as usize].name, c.salt, k.bits);
    let (sk, pk) = (must(&p, s, &rsa_priv_tmpl(k, true), "rsa private key"), must(&p, s, &rsa_pub_tmpl(k), "rsa public key"));
    cx.hit(if c.hash != c.mech { "hash contradicts the mechanism" } else { "unknown mask generation" });
    cx.nt();
    if c.how < 2 {
        let mut rv = p.sign_init(s, &m, sk);
        let mut b = vec![0u8; key.p.k() + 8];
        let mut l = ul(&b);
        if rv == CKR_OK { rv = F!(p.C_Sign(s, dbytes(&c.data), ul(&c.data), b.as_mut_ptr(), &mut l)); }
        if rv != CKR_OK { F!(p.C_SignInit(s, std::ptr::null_mut(), 0)); }
        ensure!(rv != CKR_OK, "pss-parameters", "signature made: {what}");
        return Ok(());
    }
    // a signature that is right for one reading of the parameters
    let (h, mg) = (if c.how & 1 == 0 || c.hash >= n { c.mech } else { c.hash }, if c.mgf < n { c.mgf } else { h_of(c) });
    let sc = Sch::Pss { h, mgf: mg, salt: 0, raw: false };
    let Some(em) = sc.encode(&c.data, &key, c.salt as u64, &c.rnd) else { return Ok(()) };
    let sig = key.raw(&em);
    ensure!(sc.valid(&key.p, &c.data, &sig, c.salt as u64), "harness", "reference signature not valid: {what}");
    let (via, rv) = verify(&p, s, c.how - 2, false, &m, pk, &c.data, &sig, &[]);
    if rv != CKR_OK { F!(p.C_VerifyInit(s, std::ptr::null_mut(), 0)); F!(p.C_VerifySignatureInit(s, std::ptr::null_mut(), 0, std::ptr::null_mut(), 0)); }
    ensure!(rv != CKR_OK, "pss-parameters", "{via} accepts: {what}");
    Ok(())
}
fn h_of(c: &PssBad) -> u8 { c.mech }

pub fn prop() -> Prop {
    Prop {
        id: "C15", level: "exploration", workers: 8, hang_s: 60,
        rule: "RSA PKCS#1 v1.5, raw, PSS (all hash, mask and salt combinations) with 10 keys of 1024 to 3072 bits (odd sizes included) and ECDSA on three curves: library signatures checked by the reference, reference signatures (also of malformed encodings) and altered ones given to the four verify interfaces, verdict compared; RSA encryption likewise in both directions; non-trivial: a verdict, signature or plaintext was compared",
        assumptions: &["raw RSA-PKCS signs at least one byte (OpenSSL refuses to verify an empty DigestInfo)", "raw RSA is used with full-length input", "PKCS#1 v1.5 decryption may answer malformed padding with a random message (implicit rejection)", "a ciphertext shorter than the modulus may be refused"],
        groups: vec![gen_("rsa-signatures", 5000, 500000, rsasigs, run_rsa), gen_("pss-parameters", 1500, 60000, pssbads, run_pssbad), gen_("ecdsa", 5000, 300000, ecsigs, run_ec), gen_("rsa-encryption", 6000, 500000, encs, run_enc)],
    }
}
