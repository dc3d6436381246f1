//! C22: the operation state machine of a session.
use crate::crypt::*;
use crate::msgapi::*;
use crate::ops::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::run::*;
use crate::tok::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ptr::null_mut;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum K { Enc, Dec, Dig, Sign, Ver, VSig, Find, MEnc, MDec }
const KS: [K; 9] = [K::Enc, K::Dec, K::Dig, K::Sign, K::Ver, K::VSig, K::Find, K::MEnc, K::MDec];
const NK: usize = 9;
const NM: [u8; NK] = [6, 6, 3, 5, 4, 4, 1, 2, 2]; // algorithms per kind

/// what kind of signature is offered
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Sg { Right, Wrong, Short, Long }
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cmd {
    Init { s: u8, k: K, m: u8 },
    /// init that must be refused: 0 unknown mechanism, 1 no such key, 2 mechanism of another kind, 3 malformed parameter
    Bad { s: u8, k: K, how: u8 },
    Null { s: u8, k: K },
    Update { s: u8, k: K, n: u8 },
    Final { s: u8, k: K, pol: u8, sig: Sg },
    /// one-shot; `bad` damages the input where that matters
    One { s: u8, k: K, n: u8, pol: u8, sig: Sg, bad: bool },
    Begin { s: u8, k: K },
    Next { s: u8, k: K, n: u8, last: bool },
    Cancel { s: u8, mask: u16 },
    Reopen { s: u8 },
    Dual { s: u8, sign: bool, n: u8 },
    DigestKey { s: u8 },
}

#[derive(Clone, Debug)]
enum St { Idle, Unknown, Act(A) }
#[derive(Clone, Debug)]
struct A { m: u8, fed: Vec<u8>, out: Vec<u8>, multi: bool, sig: Vec<u8>, sgok: bool, msg: bool, found: Vec<u64> }
impl A { fn new(m: u8) -> A { A { m, fed: vec![], out: vec![], multi: false, sig: vec![], sgok: true, msg: false, found: vec![] } } }

struct Env { p: P, s: [u64; 2], slot: u64, aes: u64, gk: u64, rsa: (u64, u64), ec: (u64, u64), data: Vec<u64>, st: [[St; NK]; 2], stream: Vec<u8>, pt: Vec<u8>, keeper: u64 }

fn cenc(m: u8) -> Ciph {
    let mode = [Mode::Cbc, Mode::CbcPad, Mode::Ctr, Mode::Gcm, Mode::Ofb, Mode::Kw][m as usize];
    Ciph { mode, key: Hx((1..=16).collect()), iv: Hx(if mode == Mode::Gcm { vec![7; 12] } else if mode == Mode::Kw { vec![] } else { vec![9; 16] }), aad: Hx(if mode == Mode::Gcm { vec![1, 2, 3] } else { vec![] }), n: match mode { Mode::Gcm => 16, Mode::Ctr => 128, _ => 0 } }
}
fn dig(m: u8) -> u8 { [0u8, 2, 8][m as usize] }
fn smac(m: u8) -> Mac {
    match m {
        0 => Mac { k: MacK::Hmac(2), key: Hx(vec![5; 20]), n: 0 },
        1 => Mac { k: MacK::Cmac, key: Hx((1..=16).collect()), n: 0 },
        2 => Mac { k: MacK::Ecdsa(2), key: Hx(vec![0]), n: 0 },
        3 => Mac { k: MacK::Rsa(2), key: Hx(vec![0]), n: 0 },
        _ => Mac { k: MacK::HmacGen(8), key: Hx(vec![5; 20]), n: 10 },
    }
}
fn cmsg(m: u8) -> Ciph { if m == 0 { cenc(3) } else { Ciph { mode: Mode::Ccm, key: Hx((1..=16).collect()), iv: Hx(vec![4; 12]), aad: Hx(vec![8; 5]), n: 8 } } }

impl Env {
    fn mech(&self, k: K, m: u8) -> Mech {
        match k {
            K::Enc | K::Dec => cenc(m).mech(64),
            K::Dig => Mech::new(HT[dig(m) as usize].ckm),
            K::Sign | K::Ver | K::VSig => smac(m).mech(),
            K::MEnc | K::MDec => Mech::new(cmsg(m).mode.ckm()),
            K::Find => unreachable!(),
        }
    }
    fn key(&self, k: K, m: u8) -> u64 {
        match k {
            K::Sign | K::Ver | K::VSig => match smac(m).k { MacK::Ecdsa(_) => if k == K::Sign { self.ec.0 } else { self.ec.1 }, MacK::Rsa(_) => if k == K::Sign { self.rsa.0 } else { self.rsa.1 }, MacK::Cmac => self.aes, _ => self.gk },
            _ => self.aes,
        }
    }
    fn init(&self, i: usize, k: K, m: &Mech, key: u64, sig: &[u8]) -> Rv {
        let (p, s) = (&self.p, self.s[i]);
        match k {
            K::Enc => p.encrypt_init(s, m, key), K::Dec => p.decrypt_init(s, m, key), K::Dig => p.digest_init(s, m),
            K::Sign => p.sign_init(s, m, key), K::Ver => p.verify_init(s, m, key), K::VSig => p.vsig_init(s, m, key, sig),
            K::Find => p.find_init(s, &tm! { CKA_LABEL => "c22", CKA_TOKEN => false }), K::MEnc => menc_init(p, s, m, key), K::MDec => mdec_init(p, s, m, key),
        }
    }
    fn null(&self, i: usize, k: K) -> Rv {
        let (p, s, z) = (&self.p, self.s[i], null_mut());
        match k {
            K::Enc => F!(p.C_EncryptInit(s, z, 0)), K::Dec => F!(p.C_DecryptInit(s, z, 0)), K::Dig => F!(p.C_DigestInit(s, z)), K::Sign => F!(p.C_SignInit(s, z, 0)),
            K::Ver => F!(p.C_VerifyInit(s, z, 0)), K::VSig => F!(p.C_VerifySignatureInit(s, z, 0, z as *mut u8, 0)),
            K::Find => p.find_final(s), K::MEnc => F!(p.C_MessageEncryptInit(s, z, 0)), K::MDec => F!(p.C_MessageDecryptInit(s, z, 0)),
        }
    }
    /// signature over the message the tests use
    fn sig(&self, k: K, m: u8, data: &[u8], sg: Sg) -> Vec<u8> {
        let mc = smac(m);
        let mut v = match mc.value(data) { Some(v) => v, None => {
            // signed in a session of its own
            let (_, s) = self.p.open(self.slot, true);
            let r = self.p.sig(s, &mc.mech(), self.key(K::Sign, m), data);
            self.p.close(s);
            r.unwrap_or_else(|e| panic!("helper sign {}", rvname(e)))
        } };
        let _ = k;
        match sg { Sg::Right => {} Sg::Wrong => { let n = v.len(); v[n / 2] ^= 4 } Sg::Short => { v.pop(); } Sg::Long => v.push(0) }
        v
    }
}

fn pl(x: u8) -> Pol { match x % 4 { 0 => Pol::Big, 1 => Pol::Query, 2 => Pol::Exact, _ => Pol::Short(x) } }
/// reference result of a cipher over the data fed so far: None when the operation must fail
fn want_cipher(k: K, c: &Ciph, fed: &[u8], full: &[u8], pt: &[u8]) -> Option<Vec<u8>> {
    if k == K::Enc { return if c.len_ok(fed.len()) { Some(c.enc(fed)) } else { None }; }
    if fed == full { return Some(pt.to_vec()); }
    match c.mode {
        Mode::Ctr | Mode::Ofb => Some(c.enc(fed)),
        Mode::Cbc if fed.len() % 16 == 0 => Some(refc::aes::cbc_dec(&c.key, &c.iv, fed)),
        Mode::CbcPad if fed.len() % 16 == 0 && !fed.is_empty() => { let d = refc::aes::cbc_dec(&c.key, &c.iv, fed); refc::aes::unpad(&d).map(|x| x.to_vec()) }
        _ => None,
    }
}

fn step(e: &mut Env, c: Cmd, cx: &mut Cx, hist: &str) -> R {
    let p = e.p;
    let nm = format!("{c:?} after [{hist}]");
    let noti = |rv: Rv, what: &str| -> R { if rv == CKR_OPERATION_NOT_INITIALIZED { Ok(()) } else { viol("not-initialized", format!("{nm}: {what} gives {} although no such operation is active", rvname(rv))) } };
    match c {
        Cmd::Init { s, k, m } => {
            let (i, ki) = (s as usize, k as usize);
            let m = m % NM[ki];
            let sgk = m % 3; // verify-signature: every third signature is wrong
            let mut a = A::new(m);
            if k == K::VSig { a.sgok = sgk != 2; a.sig = e.sig(k, m, &e.stream.clone(), if a.sgok { Sg::Right } else { Sg::Wrong }); }
            let rv = if k == K::Find { e.init(i, k, &Mech::new(0), 0, &[]) } else { e.init(i, k, &e.mech(k, m), e.key(k, m), &a.sig) };
            match &e.st[i][ki] {
                St::Act(_) => { ensure!(rv == CKR_OPERATION_ACTIVE, "operation-active", "{nm}: init while active gives {}", rvname(rv)); cx.hit("init while active refused"); }
                St::Idle => { ensure!(rv == CKR_OK, "init", "{nm}: {}", rvname(rv)); e.st[i][ki] = St::Act(a); cx.hit(&format!("init {k:?}")); }
                St::Unknown => if rv == CKR_OK { e.st[i][ki] = St::Act(a) } else { ensure!(rv == CKR_OPERATION_ACTIVE, "init", "{nm}: {}", rvname(rv)) },
            }
        }
        Cmd::Bad { s, k, how } => {
            let (i, ki) = (s as usize, k as usize);
            if k == K::Find { return Ok(()); }
            let good = e.mech(k, 0);
            let key = e.key(k, 0);
            let rv = match how % 4 {
                0 => e.init(i, k, &Mech::new(0x8fff_1234), key, &[1; 16]),
                1 if k != K::Dig => e.init(i, k, &good, 0x7fff_ffff, &[1; 16]),
                2 => e.init(i, k, &Mech::new(if k == K::Dig { CKM_AES_CBC } else { CKM_SHA256 }), key, &[1; 16]),
                _ => e.init(i, k, &Mech::bytes(if k == K::Enc || k == K::Dec || k == K::MEnc || k == K::MDec { CKM_AES_CBC } else if k == K::Dig { CKM_SHA256_HMAC } else { CKM_AES_CMAC_GENERAL }, &[1, 2, 3]), e.aes, &[1; 16]),
            };
            ensure!(rv != CKR_OK, "bad-init", "{nm}: accepted");
            cx.hit("bad init refused");
        }
        Cmd::Null { s, k } => {
            let (i, ki) = (s as usize, k as usize);
            let rv = e.null(i, k);
            if k == K::Find {
                match &e.st[i][ki] { St::Idle => noti(rv, "C_FindObjectsFinal")?, St::Act(_) => ensure!(rv == CKR_OK, "find-final", "{nm}: {}", rvname(rv)), St::Unknown => {} }
            } else { ensure!(rv == CKR_OK || matches!(e.st[i][ki], St::Idle) && rv == CKR_OPERATION_NOT_INITIALIZED, "null-init", "{nm}: cancelling gives {}", rvname(rv)); }
            if matches!(e.st[i][ki], St::Act(_)) { cx.hit("cancelled by init"); }
            e.st[i][ki] = St::Idle;
        }
        Cmd::Cancel { s, mask } => {
            let i = s as usize;
            let mut fl = 0;
            for (b, (k, f)) in [(K::Enc, CKF_ENCRYPT), (K::Dec, CKF_DECRYPT), (K::Dig, CKF_DIGEST), (K::Sign, CKF_SIGN), (K::Ver, CKF_VERIFY), (K::Find, CKF_FIND_OBJECTS), (K::MEnc, CKF_MESSAGE_ENCRYPT), (K::MDec, CKF_MESSAGE_DECRYPT)].iter().enumerate() {
                if mask & (1 << b) != 0 {
                    fl |= f;
                    e.st[i][*k as usize] = St::Idle;
                    if *k == K::Ver && !matches!(e.st[i][K::VSig as usize], St::Idle) { e.st[i][K::VSig as usize] = St::Unknown; }
                }
            }
            let rv = p.cancel(e.s[i], fl);
            ensure!(rv == CKR_OK, "cancel", "{nm}: {}", rvname(rv));
            cx.hit("C_SessionCancel");
        }
        Cmd::Reopen { s } => {
            let i = s as usize;
            let old = e.s[i];
            ensure!(p.close(old) == CKR_OK, "close", "{nm}");
            for k in [K::Enc, K::Dig, K::Sign] {
                let rv = match k { K::Enc => p.encrypt_update(old, &[1]).0, K::Dig => p.digest_update(old, &[1]), _ => p.sign_update(old, &[1]) };
                ensure!(rv == CKR_SESSION_HANDLE_INVALID, "dead-session", "{nm}: {k:?} update on a closed session gives {}", rvname(rv));
            }
            let (rv, n) = p.open(e.slot, true);
            ensure!(rv == CKR_OK, "open", "{nm}: {}", rvname(rv));
            e.s[i] = n;
            for k in 0..NK { e.st[i][k] = St::Idle; }
        }
        Cmd::Update { s, k, n } => {
            let (i, ki) = (s as usize, k as usize);
            let ss = e.s[i];
            if matches!(k, K::MEnc | K::MDec) { return Ok(()); }
            if k == K::Find {
                let (rv, v) = p.find_next(ss, n as usize % 4 + 1);
                match &mut e.st[i][ki] {
                    St::Idle => noti(rv, "C_FindObjects")?,
                    St::Act(a) => {
                        ensure!(rv == CKR_OK, "find", "{nm}: {}", rvname(rv));
                        a.found.extend(v);
                        let mut x = a.found.clone(); x.sort(); x.dedup();
                        ensure!(x.len() == a.found.len() && x.iter().all(|h| e.data.contains(h)), "find-result", "{nm}: found {:?} of {:?}", a.found, e.data);
                        if a.found.len() == e.data.len() { cx.hit("search complete"); }
                    }
                    St::Unknown => {}
                }
                return Ok(());
            }
            let (stream, pt) = (e.stream.clone(), e.pt.clone());
            let d: Vec<u8> = match (&e.st[i][ki], k) {
                (St::Act(a), K::Dec) => { let full = cenc(a.m).enc(&pt); let l = a.fed.len(); full[l.min(full.len())..(l + n as usize).min(full.len())].to_vec() }
                (St::Act(a), K::Ver | K::VSig) => { let l = a.fed.len(); stream[l.min(stream.len())..(l + n as usize).min(stream.len())].to_vec() }
                _ => stream[..(n as usize).min(stream.len())].to_vec(),
            };
            let (rv, o) = match k {
                K::Enc => p.encrypt_update(ss, &d), K::Dec => p.decrypt_update(ss, &d), K::Dig => (p.digest_update(ss, &d), vec![]),
                K::Sign => (p.sign_update(ss, &d), vec![]), K::Ver => (p.verify_update(ss, &d), vec![]), _ => (p.vsig_update(ss, &d), vec![]),
            };
            match &mut e.st[i][ki] {
                St::Idle => noti(rv, "update")?,
                St::Unknown => {}
                St::Act(a) => {
                    if matches!(k, K::Enc | K::Dec) && cenc(a.m).mode == Mode::Kw { if rv != CKR_OK { e.st[i][ki] = St::Unknown; } else { a.fed.extend(&d); a.out.extend(o); a.multi = true; } return Ok(()); }
                    ensure!(rv == CKR_OK, "update", "{nm}: {}", rvname(rv));
                    a.fed.extend(&d);
                    a.out.extend(o);
                    a.multi = true;
                    cx.hit(&format!("update {k:?}"));
                }
            }
        }
        Cmd::Final { s, k, pol, sig } => {
            let (i, ki) = (s as usize, k as usize);
            let ss = e.s[i];
            if k == K::Find { return step(e, Cmd::Null { s, k }, cx, hist); }
            if matches!(k, K::MEnc | K::MDec) {
                let rv = if k == K::MEnc { menc_final(&p, ss) } else { mdec_final(&p, ss) };
                match &e.st[i][ki] {
                    St::Idle => noti(rv, "message final")?,
                    St::Act(a) => { if !a.msg { ensure!(rv == CKR_OK, "message-final", "{nm}: {}", rvname(rv)); e.st[i][ki] = St::Idle; } else { e.st[i][ki] = if rv == CKR_OK { St::Idle } else { St::Unknown } } }
                    St::Unknown => {}
                }
                return Ok(());
            }
            let sg = match (&e.st[i][ki], k) { (St::Act(a), K::Ver) => { let (m, f) = (a.m, a.fed.clone()); e.sig(k, m, &f, sig) } _ => vec![1; 32] };
            let call_pol = pl(pol);
            let (rv, o) = match k {
                K::Enc => call(&p, cx, "final", call_pol, |b, l| F!(p.C_EncryptFinal(ss, b, l)))?, K::Dec => call(&p, cx, "final", call_pol, |b, l| F!(p.C_DecryptFinal(ss, b, l)))?,
                K::Dig => call(&p, cx, "final", call_pol, |b, l| F!(p.C_DigestFinal(ss, b, l)))?, K::Sign => call(&p, cx, "final", call_pol, |b, l| F!(p.C_SignFinal(ss, b, l)))?,
                K::Ver => (p.verify_final(ss, &sg), vec![]), _ => (p.vsig_final(ss), vec![]),
            };
            let (stream, pt) = (e.stream.clone(), e.pt.clone());
            let a = match &e.st[i][ki] { St::Idle => return noti(rv, "final"), St::Unknown => { return Ok(()); } St::Act(a) => a.clone() };
            // a final without any update may be refused
            if !a.multi && rv != CKR_OK { e.st[i][ki] = St::Unknown; return Ok(()); }
            e.st[i][ki] = St::Idle;
            judge(e, k, &a, rv, &[&a.out[..], &o[..]].concat(), &stream, &pt, sig, &nm, cx, i)?;
        }
        Cmd::One { s, k, n, pol, sig, bad } => {
            let (i, ki) = (s as usize, k as usize);
            let ss = e.s[i];
            if k == K::Find { return Ok(()); }
            if matches!(k, K::MEnc | K::MDec) {
                let (mut d, cm) = match &e.st[i][ki] { St::Act(a) => (e.stream[..1 + n as usize % 40].to_vec(), cmsg(a.m)), _ => (vec![1; 16], cmsg(0)) };
                let full = cm.enc(&d);
                let (ct, tag) = full.split_at(d.len());
                let (ct, mut tag) = (ct.to_vec(), tag.to_vec());
                let plain = d.clone();
                if k == K::MDec { d = ct.clone(); if bad { tag[0] ^= 1; } }
                let mut mp = if k == K::MEnc { Mp::enc(&cm, d.len()) } else { Mp::dec(&cm, d.len(), &tag) };
                let (rv, o) = mcrypt(&p, ss, cx, k == K::MEnc, pl(pol), &mut mp, &cm.aad, &d)?;
                match &e.st[i][ki] {
                    St::Idle => noti(rv, "message call")?,
                    St::Unknown => {}
                    St::Act(a) => {
                        if a.msg { ensure!(rv != CKR_OK, "message-mixed", "{nm}: one-shot message call inside a message succeeds"); e.st[i][ki] = St::Unknown; cx.hit("one-shot message inside message refused"); }
                        else if k == K::MDec && bad { ensure!(rv != CKR_OK, "bad-tag", "{nm}: accepted"); e.st[i][ki] = St::Unknown; }
                        else {
                            ensure!(rv == CKR_OK && o == if k == K::MEnc { ct } else { plain }, "message", "{nm}: {} {}", rvname(rv), hex(&o));
                            cx.hit("message one-shot");
                        }
                    }
                }
                return Ok(());
            }
            let (stream, pt) = (e.stream.clone(), e.pt.clone());
            let mut d: Vec<u8> = match (&e.st[i][ki], k) {
                (St::Act(a), K::Dec) => cenc(a.m).enc(&pt),
                (_, K::VSig) => stream.clone(),
                _ => stream[..(n as usize).min(stream.len())].to_vec(),
            };
            if bad && matches!(k, K::Dec) { d.pop(); }
            let mut sgv = match (&e.st[i][ki], k) { (St::Act(a), K::Ver) => e.sig(k, a.m, &d, sig), _ => vec![1; 32] };
            if sgv.is_empty() { sgv = vec![1]; }
            let call_pol = pl(pol);
            let (dp, dl) = (dbytes(&d), ul(&d));
            let (rv, o) = match k {
                K::Enc => call(&p, cx, "one", call_pol, |b, l| F!(p.C_Encrypt(ss, dp, dl, b, l)))?, K::Dec => call(&p, cx, "one", call_pol, |b, l| F!(p.C_Decrypt(ss, dp, dl, b, l)))?,
                K::Dig => call(&p, cx, "one", call_pol, |b, l| F!(p.C_Digest(ss, dp, dl, b, l)))?, K::Sign => call(&p, cx, "one", call_pol, |b, l| F!(p.C_Sign(ss, dp, dl, b, l)))?,
                K::Ver => (p.verify(ss, &d, &sgv), vec![]), _ => (p.vsig(ss, &d), vec![]),
            };
            let mut a = match &e.st[i][ki] { St::Idle => return noti(rv, "one-shot call"), St::Unknown => return Ok(()), St::Act(a) => a.clone() };
            if a.multi { ensure!(rv != CKR_OK, "mixed", "{nm}: one-shot call in a multi-part operation succeeds"); cx.hit("one-shot in multi-part refused"); e.st[i][ki] = St::Unknown; return Ok(()); }
            a.fed = d;
            e.st[i][ki] = St::Idle;
            judge(e, k, &a, rv, &o, &stream, &pt, sig, &nm, cx, i)?;
        }
        Cmd::Begin { s, k } | Cmd::Next { s, k, .. } => {
            let (i, ki) = (s as usize, k as usize);
            let ss = e.s[i];
            if !matches!(k, K::MEnc | K::MDec) { return Ok(()); }
            let cm = match &e.st[i][ki] { St::Act(a) => cmsg(a.m), _ => cmsg(0) };
            let total = 32;
            let plain = e.stream[..total].to_vec();
            let full = cm.enc(&plain);
            let (ct, tag) = full.split_at(total);
            let mut mp = if k == K::MEnc { Mp::enc(&cm, total) } else { Mp::dec(&cm, total, tag) };
            if let Cmd::Next { n, last, .. } = c {
                let src = if k == K::MEnc { &plain[..] } else { ct };
                let dst = if k == K::MEnc { ct } else { &plain[..] };
                let pos = match &e.st[i][ki] { St::Act(a) if a.msg => a.fed.len(), _ => 0 };
                let take = if last { total - pos } else { (n as usize).min((total - pos).saturating_sub(1)) };
                if take == 0 { return Ok(()); }
                let (rv, o) = mnext(&p, ss, cx, k == K::MEnc, Pol::Big, &mut mp, &src[pos..pos + take], last)?;
                match &mut e.st[i][ki] {
                    St::Idle => noti(rv, "message next")?,
                    St::Unknown => {}
                    St::Act(a) if !a.msg => { ensure!(rv != CKR_OK, "next-without-begin", "{nm}: accepted"); e.st[i][ki] = St::Unknown; cx.hit("next without begin refused"); }
                    St::Act(a) => {
                        ensure!(rv == CKR_OK, "message-next", "{nm}: {}", rvname(rv));
                        a.fed.extend(&src[pos..pos + take]);
                        a.out.extend(o);
                        if last {
                            ensure!(a.out == dst, "message-result", "{nm}: {} instead of {}", hex(&a.out), hex(dst));
                            a.msg = false; cx.hit("message in parts");
                        }
                    }
                }
            } else {
                let rv = mbegin(&p, ss, k == K::MEnc, &mut mp, &cm.aad);
                match &mut e.st[i][ki] {
                    St::Idle => noti(rv, "message begin")?,
                    St::Unknown => {}
                    St::Act(a) if a.msg => { ensure!(rv != CKR_OK, "begin-in-message", "{nm}: accepted"); e.st[i][ki] = St::Unknown; cx.hit("begin inside message refused"); }
                    St::Act(a) => { ensure!(rv == CKR_OK, "message-begin", "{nm}: {}", rvname(rv)); a.msg = true; a.fed.clear(); a.out.clear(); }
                }
            }
        }
        Cmd::Dual { s, sign, n } => {
            let i = s as usize;
            let ss = e.s[i];
            let other = if sign { K::Sign } else { K::Dig } as usize;
            let d = e.stream[..n as usize % 60].to_vec();
            let (dp, dl) = (dbytes(&d), ul(&d));
            let (rv, o, _) = p.out(BIG, |b, l| if sign { F!(p.C_SignEncryptUpdate(ss, dp, dl, b, l)) } else { F!(p.C_DigestEncryptUpdate(ss, dp, dl, b, l)) });
            let idle = matches!(e.st[i][0], St::Idle) || matches!(e.st[i][other], St::Idle);
            if idle {
                ensure!(rv == CKR_OPERATION_NOT_INITIALIZED, "dual-not-initialized", "{nm}: {} although one of the operations is not active", rvname(rv));
                for k in [0, other] { if !matches!(e.st[i][k], St::Idle) { e.st[i][k] = St::Unknown; } }
                cx.hit("dual refused");
            } else if rv == CKR_OK {
                for k in [0, other] { if let St::Act(a) = &mut e.st[i][k] { a.fed.extend(&d); a.multi = true; if k == 0 { a.out.extend(&o); } } }
                cx.hit("dual update");
            } else {
                if let (St::Act(a), St::Act(b)) = (&e.st[i][0], &e.st[i][other]) { ensure!(cenc(a.m).mode == Mode::Kw, "dual", "{nm}: {} with {:?} {:?}", rvname(rv), a, b); }
                for k in [0, other] { e.st[i][k] = St::Unknown; }
            }
        }
        Cmd::DigestKey { s } => {
            let i = s as usize;
            let rv = p.digest_key(e.s[i], e.gk);
            match &mut e.st[i][K::Dig as usize] {
                St::Idle => noti(rv, "C_DigestKey")?,
                St::Unknown => {}
                St::Act(a) => { ensure!(rv == CKR_OK, "digest-key", "{nm}: {}", rvname(rv)); a.fed.extend([5u8; 20]); a.multi = true; cx.hit("digest key"); }
            }
        }
    }
    Ok(())
}

/// the operation ended with `rv`; check the result
#[allow(clippy::too_many_arguments)]
fn judge(e: &Env, k: K, a: &A, rv: Rv, out: &[u8], stream: &[u8], pt: &[u8], sig: Sg, nm: &str, cx: &mut Cx, i: usize) -> R {
    let ok = rv == CKR_OK;
    ensure!(!matches!(rv, CKR_OPERATION_NOT_INITIALIZED | CKR_OPERATION_ACTIVE), "lost-operation", "{nm}: {} for an active operation", rvname(rv));
    let mut failed = false;
    match k {
        K::Enc | K::Dec => {
            let c = cenc(a.m);
            match want_cipher(k, &c, &a.fed, &c.enc(pt), pt) {
                Some(w) => ensure!(ok && out == w, "result", "{nm}: {} {} instead of {}", rvname(rv), hex(out), hex(&w)),
                None => { ensure!(!ok, "bad-data", "{nm}: accepted {} bytes", a.fed.len()); failed = true; }
            }
        }
        K::Dig => { let w = HT[dig(a.m) as usize].h.hash(&a.fed); ensure!(ok && out == w, "result", "{nm}: {} {} instead of {}", rvname(rv), hex(out), hex(&w)); }
        K::Sign => {
            ensure!(ok, "result", "{nm}: sign gives {}", rvname(rv));
            let mc = smac(a.m);
            match mc.value(&a.fed) {
                Some(w) => ensure!(out == w, "result", "{nm}: {} instead of {}", hex(out), hex(&w)),
                None => {
                    let (_, s) = e.p.open(e.slot, true);
                    let rv = e.p.ver(s, &mc.mech(), e.key(K::Ver, a.m), &a.fed, out);
                    e.p.close(s);
                    ensure!(rv == CKR_OK, "result", "{nm}: signature verifies with {}", rvname(rv));
                }
            }
        }
        K::Ver => {
            ensure!(ok == (sig == Sg::Right), "verdict", "{nm}: {}", rvname(rv));
            if matches!(sig, Sg::Short | Sg::Long) { ensure!(rv == CKR_SIGNATURE_LEN_RANGE, "length-code", "{nm}: {}", rvname(rv)); }
            failed = !ok;
        }
        K::VSig => { let w = a.sgok && a.fed == stream; ensure!(ok == w, "verdict", "{nm}: {} after {} bytes, right signature {}", rvname(rv), a.fed.len(), a.sgok); failed = !ok; }
        _ => {}
    }
    cx.hit(&format!("{} {k:?}", if failed { "failed" } else { "completed" }));
    // over: nothing of that kind may go on
    let ss = e.s[i];
    let p = &e.p;
    let rv = match k { K::Enc => p.encrypt_update(ss, &[0; 16]).0, K::Dec => p.decrypt_update(ss, &[0; 16]).0, K::Dig => p.digest_update(ss, &[0; 16]), K::Sign => p.sign_update(ss, &[0; 16]), K::Ver => p.verify_update(ss, &[0; 16]), _ => p.vsig_update(ss, &[0; 16]) };
    ensure!(rv == CKR_OPERATION_NOT_INITIALIZED, "not-over", "{nm}: update after the operation ended gives {}", rvname(rv));
    cx.nt();
    Ok(())
}

fn ks() -> BoxedStrategy<K> { prop::sample::select(&KS[..]).boxed() }
fn mks() -> BoxedStrategy<K> { prop_oneof![Just(K::MEnc), Just(K::MDec)].boxed() }
fn sgs() -> BoxedStrategy<Sg> { prop_oneof![4 => Just(Sg::Right), 2 => Just(Sg::Wrong), 1 => Just(Sg::Short), 1 => Just(Sg::Long)].boxed() }
fn cmd(focus: Option<(u8, Vec<K>)>) -> BoxedStrategy<Cmd> {
    // a history concentrates on a few kinds so that they meet
    let (s, k): (BoxedStrategy<u8>, BoxedStrategy<K>) = match focus { Some((_, v)) => (prop_oneof![3 => Just(0u8), 1 => Just(1u8)].boxed(), prop_oneof![6 => prop::sample::select(v), 1 => ks()].boxed()), None => ((0u8..2).boxed(), ks()) };
    prop_oneof![
        8 => (s.clone(), k.clone(), any::<u8>()).prop_map(|(s, k, m)| Cmd::Init { s, k, m: m % 12 }),
        2 => (s.clone(), k.clone(), 0u8..4).prop_map(|(s, k, how)| Cmd::Bad { s, k, how }),
        1 => (s.clone(), k.clone()).prop_map(|(s, k)| Cmd::Null { s, k }),
        8 => (s.clone(), k.clone(), prop_oneof![0u8..40, Just(16u8), Just(32u8)]).prop_map(|(s, k, n)| Cmd::Update { s, k, n }),
        5 => (s.clone(), k.clone(), any::<u8>(), sgs()).prop_map(|(s, k, pol, sig)| Cmd::Final { s, k, pol, sig }),
        5 => (s.clone(), k.clone(), prop_oneof![0u8..64, Just(16u8), Just(32u8)], any::<u8>(), sgs(), prop::bool::weighted(0.2)).prop_map(|(s, k, n, pol, sig, bad)| Cmd::One { s, k, n, pol, sig, bad }),
        1 => (s.clone(), mks()).prop_map(|(s, k)| Cmd::Begin { s, k }),
        2 => (s.clone(), mks(), 1u8..20, prop::bool::weighted(0.4)).prop_map(|(s, k, n, last)| Cmd::Next { s, k, n, last }),
        2 => (s.clone(), any::<u16>(), any::<u16>()).prop_map(|(s, a, b)| Cmd::Cancel { s, mask: a & b & 0xff }),
        1 => s.clone().prop_map(|s| Cmd::Reopen { s }),
        1 => (s.clone(), any::<bool>(), any::<u8>()).prop_map(|(s, sign, n)| Cmd::Dual { s, sign, n }),
        1 => s.prop_map(|s| Cmd::DigestKey { s }),
    ].boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist { cmds: Vec<Cmd> }
fn hists() -> BoxedStrategy<Hist> {
    prop::collection::vec(ks(), 1..4).prop_flat_map(|v| prop::collection::vec(cmd(Some((0, v))), 1..50)).prop_map(|cmds| Hist { cmds }).boxed()
}
fn run(h: &Hist, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, slot) = cx.tok.shared();
    let keeper = g.s;
    let gen_v = [5u8; 20];
    let data: Vec<u64> = (0..7).map(|i| must(&p, keeper, &tm! { CKA_CLASS => CKO_DATA, CKA_LABEL => "c22", CKA_VALUE => vec![i as u8] }, "data")).collect();
    let ec = test_ec();
    let pt: Vec<u8> = (0..48u8).map(|x| x.wrapping_mul(37)).collect();
    let mut e = Env {
        p, s: [0; 2], slot, aes: aes_obj(&p, keeper, &(1..=16).collect::<Vec<u8>>()), gk: secret(&p, keeper, CKK_GENERIC_SECRET, &gen_v, &[]),
        rsa: rsa_objs(&p, keeper, &crate::rsakeys::KEYS[TEST_RSA]), ec: (ec_priv(&p, keeper, &ec.0, &ec.1), ec_pub(&p, keeper, &ec.0, &ec.2)),
        data, st: std::array::from_fn(|_| std::array::from_fn(|_| St::Idle)), stream: (0..100u8).map(|x| x.wrapping_mul(91)).collect(), pt, keeper,
    };
    // objects belong to the keeper session and go with it
    let _ = e.keeper;
    for i in 0..2 { let (rv, s) = p.open(slot, true); ensure!(rv == CKR_OK, "open", "{}", rvname(rv)); e.s[i] = s; }
    let mut r = Ok(());
    let mut done: Vec<String> = vec![];
    for c in &h.cmds {
        let hs = done.iter().rev().take(12).rev().cloned().collect::<Vec<_>>().join(", ");
        r = step(&mut e, *c, cx, &hs);
        if r.is_err() { break; }
        done.push(format!("{c:?}"));
    }
    for i in 0..2 { p.close(e.s[i]); }
    r
}

pub fn prop() -> Prop {
    Prop {
        id: "C22", level: "exploration", workers: 8, hang_s: 60,
        rule: "histories of 5-50 init/update/final/one-shot/message/cancel/close/dual calls in two sessions, over nine operation kinds, compared call by call with a state machine that also predicts every result; non-trivial: at least one operation ran to its end with the predicted outcome",
        assumptions: &["after a call whose effect on the operation the standard leaves open (one-shot in a multi-part operation, refused dual update, failed message) the operation's state is taken as unknown until it is cancelled or initialized",
            "a final without any update may be refused", "C_SessionCancel with CKF_VERIFY may or may not end a C_VerifySignature operation"],
        groups: vec![gen_("histories", 24000, 400000, hists, run)],
    }
}
