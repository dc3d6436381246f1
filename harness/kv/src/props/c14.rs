//! C14: authenticated encryption: nothing is released unless every input bit is authentic.
use crate::crypt::*;
use crate::msgapi::*;
use crate::ops::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::run::*;
use crate::tok::*;
use proptest::prelude::*;
use refc::aes;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

const AEAD: [Mode; 2] = [Mode::Gcm, Mode::Ccm];

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Alter {
    None, FlipCt(u16), FlipTag(u16), FlipIv(u16), FlipAad(u16), FlipKey(u16),
    /// drop so many octets at the end (or the start) of ciphertext and tag
    Cut(u8, bool), Extend(u8, bool), CutAad(u8, bool), ExtendAad(u8, bool), CutIv(u8), ExtendIv(u8),
    /// another tag length: the blob stays the same
    TagLen(u8),
    /// a shorter (or longer, zero filled) tag and the matching length
    TagResize(u8),
    /// an octet moves from the associated data to the ciphertext or back
    Shift(bool), ZeroTag, SwapBlocks, KeyOfOtherSize,
}
use Alter::*;
fn alter() -> BoxedStrategy<Alter> {
    prop_oneof![
        3 => Just(None), 3 => any::<u16>().prop_map(FlipCt), 3 => any::<u16>().prop_map(FlipTag), 2 => any::<u16>().prop_map(FlipIv), 2 => any::<u16>().prop_map(FlipAad), 1 => any::<u16>().prop_map(FlipKey),
        2 => (1u8..40, any::<bool>()).prop_map(|(a, b)| Cut(a, b)), 2 => (1u8..20, any::<bool>()).prop_map(|(a, b)| Extend(a, b)),
        1 => (1u8..20, any::<bool>()).prop_map(|(a, b)| CutAad(a, b)), 1 => (1u8..20, any::<bool>()).prop_map(|(a, b)| ExtendAad(a, b)),
        1 => (1u8..6).prop_map(CutIv), 1 => (1u8..6).prop_map(ExtendIv), 1 => (1u8..=16).prop_map(TagLen), 2 => (1u8..=16).prop_map(TagResize),
        1 => any::<bool>().prop_map(Shift), 1 => Just(ZeroTag), 1 => Just(SwapBlocks), 1 => Just(KeyOfOtherSize),
    ].boxed()
}

/// everything a receiver presents
#[derive(Clone, Debug)]
struct Tup { c: Ciph, ct: Vec<u8>, tag: Vec<u8> }
fn flip(v: &mut [u8], b: u16) { if !v.is_empty() { let i = b as usize % (v.len() * 8); v[i / 8] ^= 1 << (i % 8); } }
fn chop(v: &mut Vec<u8>, n: usize, front: bool) { let n = n.min(v.len()); if front { v.drain(..n); } else { v.truncate(v.len() - n); } }
fn grow(v: &mut Vec<u8>, n: usize, front: bool) { let x: Vec<u8> = (0..n).map(|i| (i * 37 % 3) as u8).collect(); if front { v.splice(0..0, x); } else { v.extend(x); } }
impl Tup {
    fn seal(c: &Ciph, d: &[u8]) -> Tup {
        let mut b = c.enc(d);
        let tag = b.split_off(d.len());
        Tup { c: c.clone(), ct: b, tag }
    }
    fn alter(&self, a: Alter) -> Tup {
        let mut t = self.clone();
        let n = t.tag.len();
        let resplit = |t: &mut Tup, mut b: Vec<u8>, n: usize| { let k = b.len().saturating_sub(n); t.tag = b.split_off(k); t.ct = b; };
        match a {
            None => {}
            FlipCt(b) => flip(&mut t.ct, b),
            FlipTag(b) => flip(&mut t.tag, b),
            FlipIv(b) => flip(&mut t.c.iv.0, b),
            FlipAad(b) => flip(&mut t.c.aad.0, b),
            FlipKey(b) => flip(&mut t.c.key.0, b),
            Cut(k, front) => { let mut b = [&t.ct[..], &t.tag].concat(); chop(&mut b, k as usize, front); resplit(&mut t, b, n); }
            Extend(k, front) => { let mut b = [&t.ct[..], &t.tag].concat(); grow(&mut b, k as usize, front); resplit(&mut t, b, n); }
            CutAad(k, f) => chop(&mut t.c.aad.0, k as usize, f),
            ExtendAad(k, f) => grow(&mut t.c.aad.0, k as usize, f),
            CutIv(k) => chop(&mut t.c.iv.0, k as usize, false),
            ExtendIv(k) => grow(&mut t.c.iv.0, k as usize, false),
            TagLen(k) => { let b = [&t.ct[..], &t.tag].concat(); t.c.n = k as u32; resplit(&mut t, b, k as usize); }
            TagResize(k) => { t.tag.resize(k as usize, 0); t.c.n = k as u32; }
            Shift(true) => { if let Some(x) = t.c.aad.0.pop() { t.ct.insert(0, x); } }
            Shift(false) => { if !t.ct.is_empty() { let x = t.ct.remove(0); t.c.aad.0.push(x); } }
            ZeroTag => t.tag.fill(0),
            SwapBlocks => { if t.ct.len() >= 32 { for i in 0..16 { t.ct.swap(i, 16 + i); } } }
            KeyOfOtherSize => { if t.c.key.len() == 16 { let k = t.c.key.0.clone(); t.c.key.0.extend(k); } else { t.c.key.0.truncate(16); } }
        }
        t
    }
    /// what unauthenticated decryption would give
    fn leak(&self) -> Vec<u8> {
        let k = self.ct.len();
        if self.c.mode == Mode::Gcm { if self.c.iv.is_empty() { return vec![]; } aes::gcm_enc(&self.c.key, &self.c.iv, &[], &self.ct, 16)[..k].to_vec() }
        else if (7..=13).contains(&self.c.iv.len()) { aes::ccm_enc(&self.c.key, &self.c.iv, &[], &self.ct, 16)[..k].to_vec() } else { vec![] }
    }
    fn open(&self) -> Option<Vec<u8>> {
        let n = self.c.n as usize;
        if self.tag.len() != n { return Option::None; }
        match self.c.mode {
            Mode::Gcm => { if self.c.iv.is_empty() { return Option::None; } }
            _ => if !(7..=13).contains(&self.c.iv.len()) || ![4, 6, 8, 10, 12, 14, 16].contains(&n) || self.ct.is_empty() { return Option::None; }
        }
        let p = self.leak();
        if self.c.enc(&p) == [&self.ct[..], &self.tag].concat() { Some(p) } else { Option::None }
    }
}

fn leaks(buf: &[u8], plain: &[u8]) -> bool {
    if plain.len() < 4 { return false; }
    let w = plain.len().min(8);
    plain.windows(w).any(|x| x.iter().any(|b| *b != x[0]) && buf.windows(w).any(|y| x == y))
}
/// call with a buffer whose whole content is returned
fn raw(cap: usize, f: impl FnOnce(*mut u8, *mut CK_ULONG) -> Rv) -> (Rv, Vec<u8>, Vec<u8>) {
    let mut b = GBuf::new(cap);
    let mut l = cap as CK_ULONG;
    let rv = f(b.ptr(), &mut l);
    b.check();
    let o = if rv == CKR_OK { b.data(l as usize) } else { vec![] };
    (rv, o, b.data(cap))
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Way { One, Parts, Msg, MsgParts }
fn way() -> BoxedStrategy<Way> { prop::sample::select(vec![Way::One, Way::Parts, Way::Msg, Way::MsgParts]).boxed() }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { c: Ciph, data: Hx, alter: Alter, more: Option<Alter>, way: Way, cuts: Vec<u8>, exact: bool, query: bool }
fn strat() -> BoxedStrategy<Case> {
    (ciph(&AEAD), msg(), alter(), prop::option::weighted(0.1, alter()), way(), prop::collection::vec(any::<u8>(), 0..5), any::<bool>(), any::<bool>())
        .prop_map(|(c, data, alter, more, way, cuts, exact, query)| Case { c, data, alter, more, way, cuts, exact, query }).boxed()
}
fn cutpoints(cuts: &[u8], n: usize) -> Vec<(usize, usize)> {
    let mut c: Vec<usize> = cuts.iter().map(|x| *x as usize * (n + 1) / 256).collect();
    c.push(n);
    c.sort();
    let mut a = 0;
    c.into_iter().map(|x| { let r = (a, x); a = x; r }).collect()
}

/// present the tuple to the library: Ok(plaintext) or the refusal; checks that a refusal releases nothing
fn open(p: &P, s: Sess, cx: &mut Cx, t: &Tup, way: Way, cuts: &[u8], exact: bool, query: bool) -> R<Result<Vec<u8>, (String, Rv)>> {
    let k = aes_obj(p, s, &t.c.key);
    let plain = t.leak();
    let n = t.ct.len();
    let blob = [&t.ct[..], &t.tag].concat();
    let what = format!("{:?} {way:?}", t.c.mode);
    let released = |name: &str, rv: Rv, buf: &[u8]| -> R {
        ensure!(!leaks(buf, &plain), "plaintext-released", "{what}: {name} fails with {} and leaves plaintext of {} octets in the output: {}", rvname(rv), plain.len(), hex(&buf[..buf.len().min(64)]));
        Ok(())
    };
    macro_rules! fail { ($n:expr, $rv:expr) => { return Ok(Err(($n.to_string(), $rv))) } }
    match way {
        Way::One => {
            let rv = p.decrypt_init(s, &t.c.mech(n), k);
            if rv != CKR_OK { fail!("init", rv) }
            if query {
                let mut l = 0;
                let rv = F!(p.C_Decrypt(s, dbytes(&blob), ul(&blob), std::ptr::null_mut(), &mut l));
                if rv != CKR_OK { fail!("query", rv) }
            }
            let (rv, o, buf) = raw(if exact { n } else { n + 64 }, |b, l| F!(p.C_Decrypt(s, dbytes(&blob), ul(&blob), b, l)));
            if rv != CKR_OK {
                released("C_Decrypt", rv, &buf)?;
                if rv == CKR_BUFFER_TOO_SMALL { return viol("buffer", format!("{what}: {n} octets are said to be too few for the plaintext")); }
                // the failed operation is over: no finer probing of the same operation
                let mut l = 64;
                let mut b2 = [0u8; 64];
                let r2 = F!(p.C_DecryptFinal(s, b2.as_mut_ptr(), &mut l));
                ensure!(r2 == CKR_OPERATION_NOT_INITIALIZED, "still-active", "{what}: after a failed C_Decrypt ({}) C_DecryptFinal gives {}", rvname(rv), rvname(r2));
                fail!("C_Decrypt", rv)
            }
            Ok(Ok(o))
        }
        Way::Parts => {
            let rv = p.decrypt_init(s, &t.c.mech(n), k);
            if rv != CKR_OK { fail!("init", rv) }
            let mut out = vec![];
            for (a, b) in cutpoints(cuts, blob.len()) {
                let d = &blob[a..b];
                let (rv, o, buf) = raw(if t.c.mode == Mode::Ccm { n } else { d.len() + 16 } + if exact { 0 } else { 64 }, |b, l| F!(p.C_DecryptUpdate(s, dbytes(d), ul(d), b, l)));
                if rv != CKR_OK { released("C_DecryptUpdate", rv, &buf)?; F!(p.C_DecryptInit(s, std::ptr::null_mut(), 0)); fail!("C_DecryptUpdate", rv) }
                if t.c.mode == Mode::Ccm && b < blob.len() { ensure!(o.is_empty(), "ccm-early-output", "{what}: C_DecryptUpdate returns {} octets before the tag is known", o.len()); }
                out.extend(o);
            }
            let (rv, o, buf) = raw(n + 64, |b, l| F!(p.C_DecryptFinal(s, b, l)));
            if rv != CKR_OK {
                released("C_DecryptFinal", rv, &buf)?;
                let r2 = p.decrypt_final(s).0;
                ensure!(r2 == CKR_OPERATION_NOT_INITIALIZED, "still-active", "{what}: after a failed C_DecryptFinal ({}) another gives {}", rvname(rv), rvname(r2));
                fail!("C_DecryptFinal", rv)
            }
            out.extend(o);
            Ok(Ok(out))
        }
        Way::Msg | Way::MsgParts => {
            let rv = mdec_init(p, s, &Mech::new(t.c.mode.ckm()), k);
            ensure!(rv == CKR_OK, "init", "{what}: C_MessageDecryptInit {}", rvname(rv));
            let r = open_msg(p, s, cx, t, way == Way::MsgParts, cuts, exact, query);
            mdec_final(p, s);
            r
        }
    }
}
/// one message of an initialised message decryption
fn open_msg(p: &P, s: Sess, cx: &mut Cx, t: &Tup, parts: bool, cuts: &[u8], exact: bool, query: bool) -> R<Result<Vec<u8>, (String, Rv)>> {
    let plain = t.leak();
    let n = t.ct.len();
    let what = format!("{:?} message", t.c.mode);
    let mut mp = Mp::dec(&t.c, n, &t.tag);
    let (iv0, tag0) = (mp.iv.clone(), mp.tag.clone());
    let released = |name: &str, rv: Rv, buf: &[u8]| -> R {
        ensure!(!leaks(buf, &plain), "plaintext-released", "{what}: {name} fails with {} and leaves plaintext of {} octets in the output: {}", rvname(rv), plain.len(), hex(&buf[..buf.len().min(64)]));
        Ok(())
    };
    let mut out = vec![];
    if !parts {
        let (pp, pl) = mp.ptr();
        if query {
            let mut l = 0;
            let rv = F!(p.C_DecryptMessage(s, pp, pl, cbytes(&t.c.aad), ul(&t.c.aad), dbytes(&t.ct), n as CK_ULONG, std::ptr::null_mut(), &mut l));
            if rv != CKR_OK { return Ok(Err(("query".into(), rv))); }
        }
        let (rv, o, buf) = raw(if exact { n } else { n + 64 }, |b, l| F!(p.C_DecryptMessage(s, pp, pl, cbytes(&t.c.aad), ul(&t.c.aad), dbytes(&t.ct), n as CK_ULONG, b, l)));
        if rv != CKR_OK { released("C_DecryptMessage", rv, &buf)?; return Ok(Err(("C_DecryptMessage".into(), rv))); }
        out = o;
    } else {
        let rv = mbegin(p, s, false, &mut mp, &t.c.aad);
        if rv != CKR_OK { return Ok(Err(("C_DecryptMessageBegin".into(), rv))); }
        let (pp, pl) = mp.ptr();
        // the interface refuses empty parts
        let ps: Vec<(usize, usize)> = cutpoints(cuts, n).into_iter().filter(|x| x.0 < x.1).collect();
        if ps.is_empty() { return Ok(Err(("empty".into(), CKR_ARGUMENTS_BAD))); }
        for (i, (a, b)) in ps.iter().enumerate() {
            let d = &t.ct[*a..*b];
            let last = i + 1 == ps.len();
            let fl = if last { CKF_END_OF_MESSAGE } else { 0 };
            let cap = if t.c.mode == Mode::Ccm { n } else { d.len() } + if exact { 0 } else { 64 };
            let (rv, o, buf) = raw(cap, |b, l| F!(p.C_DecryptMessageNext(s, pp, pl, dbytes(d), ul(d), b, l, fl)));
            if rv != CKR_OK { released("C_DecryptMessageNext", rv, &buf)?; return Ok(Err(("C_DecryptMessageNext".into(), rv))); }
            if t.c.mode == Mode::Ccm && !last { ensure!(o.is_empty(), "ccm-early-output", "{what}: C_DecryptMessageNext returns {} octets before the tag is checked", o.len()); }
            out.extend(o);
        }
    }
    ensure!(mp.iv == iv0 && mp.tag == tag0, "parameters-written", "{what}: decryption changed its IV or tag parameter");
    let _ = cx;
    Ok(Ok(out))
}

fn judge(cx: &mut Cx, t: &Tup, got: Result<Vec<u8>, (String, Rv)>, what: &str, alt: &str) -> R {
    match (t.open(), got) {
        (Some(w), Ok(g)) => { ensure!(w == g, "plaintext", "{what}: {} instead of {}", hex(&g), hex(&w)); cx.hit("authentic"); }
        (Some(_), Err((c, rv))) => return viol("authentic-refused", format!("{what} ({alt}): authentic input refused by {c} with {}", rvname(rv))),
        (Option::None, Ok(g)) => return viol("forgery-accepted", format!("{what} ({alt}): accepted, plaintext {}", hex(&g))),
        (Option::None, Err((c, _))) => cx.hit(&format!("refused by {c}")),
    }
    Ok(())
}
fn aname(a: Alter) -> String { format!("{a:?}").split('(').next().unwrap().to_string() }

fn run(c: &Case, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (g.p, g.s);
    let msg = matches!(c.way, Way::Msg | Way::MsgParts);
    if c.data.is_empty() && (msg || c.c.mode == Mode::Ccm) { return Ok(()); }
    if !c.c.len_ok(c.data.len()) { return Ok(()); }
    let mut t = Tup::seal(&c.c, &c.data).alter(c.alter);
    if let Some(m) = c.more { t = t.alter(m); }
    if t.ct.is_empty() && (msg || t.c.mode == Mode::Ccm) && t.open().is_some() { return Ok(()); }
    let what = format!("{:?} {:?} of {} octets", c.c.mode, c.way, c.data.len());
    let got = open(&p, s, cx, &t, c.way, &c.cuts, c.exact, c.query)?;
    // messages without ciphertext are not supported by the message interface
    if msg && t.ct.is_empty() { return Ok(()); }
    judge(cx, &t, got, &what, &format!("{:?}", c.alter))?;
    cx.hit(&format!("{:?} {:?} {}", c.c.mode, c.way, aname(c.alter)));
    cx.nt();
    Ok(())
}

// ------------------------------------------------------------- message sessions
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Msg1 { iv: Hx, aad: Hx, data: Hx, tag: u8, parts: bool, cuts: Vec<u8>, pols: Vec<Pol>, alter: Option<Alter>, dparts: bool, exact: bool, abandon: bool }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sess1 { gcm: bool, key: Hx, msgs: Vec<Msg1> }
fn sessions() -> BoxedStrategy<Sess1> {
    any::<bool>().prop_flat_map(|gcm| {
        let iv = if gcm { prop_oneof![4 => hx(12), 1 => hx(1..=32usize)].boxed() } else { hx(7..=13usize) };
        let tag = if gcm { prop_oneof![3 => Just(16u8), 2 => 1u8..=16].boxed() } else { (2u8..=8).prop_map(|x| x * 2).boxed() };
        let m = (iv, hx(0..=40usize), prop_oneof![4 => hx(1..=60usize), 1 => hx(60..=300usize)], tag, any::<bool>(), prop::collection::vec(any::<u8>(), 0..4), prop::collection::vec(pol(), 1..4), prop::option::weighted(0.35, alter()), any::<bool>(), any::<bool>(), prop::bool::weighted(0.1))
            .prop_map(|(iv, aad, data, tag, parts, cuts, pols, alter, dparts, exact, abandon)| Msg1 { iv, aad, data, tag, parts, cuts, pols, alter, dparts, exact, abandon });
        (aeskey(), prop::collection::vec(m, 1..7)).prop_map(move |(key, msgs)| Sess1 { gcm, key, msgs })
    }).boxed()
}
fn run_sessions(c: &Sess1, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (g.p, g.s);
    let mode = if c.gcm { Mode::Gcm } else { Mode::Ccm };
    let k = aes_obj(&p, s, &c.key);
    let mk = Mech::new(mode.ckm());
    let rv = menc_init(&p, s, &mk, k);
    ensure!(rv == CKR_OK, "init", "{mode:?}: C_MessageEncryptInit {}", rvname(rv));
    let rv = mdec_init(&p, s, &mk, k);
    ensure!(rv == CKR_OK, "init", "{mode:?}: C_MessageDecryptInit {}", rvname(rv));
    for (i, m) in c.msgs.iter().enumerate() {
        let ci = Ciph { mode, key: c.key.clone(), iv: m.iv.clone(), aad: m.aad.clone(), n: m.tag as u32 };
        let want = Tup::seal(&ci, &m.data);
        let mut mp = Mp::enc(&ci, m.data.len());
        let what = format!("{mode:?} message {i} of {} octets", m.data.len());
        let mut out = vec![];
        if m.parts {
            let rv = mbegin(&p, s, true, &mut mp, &m.aad);
            ensure!(rv == CKR_OK, "begin", "{what}: C_EncryptMessageBegin {}", rvname(rv));
            let ps: Vec<(usize, usize)> = cutpoints(&m.cuts, m.data.len()).into_iter().filter(|x| x.0 < x.1).collect();
            for (j, (a, b)) in ps.iter().enumerate() {
                let (rv, o) = mnext(&p, s, cx, true, m.pols[j % m.pols.len()], &mut mp, &m.data[*a..*b], j + 1 == ps.len())?;
                ensure!(rv == CKR_OK, "next", "{what}: C_EncryptMessageNext {}", rvname(rv));
                out.extend(o);
            }
        } else {
            let (rv, o) = mcrypt(&p, s, cx, true, m.pols[0], &mut mp, &m.aad, &m.data)?;
            ensure!(rv == CKR_OK, "encrypt", "{what}: C_EncryptMessage {}", rvname(rv));
            out = o;
        }
        ensure!(out == want.ct && mp.tag == want.tag && mp.iv == m.iv.0, "message-result", "{what}: ciphertext {} tag {} iv {} instead of {} {}", hex(&out), hex(&mp.tag), hex(&mp.iv), hex(&want.ct), hex(&want.tag));
        let t = m.alter.map(|a| want.alter(a)).unwrap_or(want);
        // the key belongs to the session
        if t.c.key != c.key || t.ct.is_empty() { continue; }
        if m.abandon && m.dparts {
            // a message that is never completed must not show in the next one
            mdec_final(&p, s);
            let rv = mdec_init(&p, s, &mk, k);
            ensure!(rv == CKR_OK, "reinit", "{what}: {}", rvname(rv));
            let mut mp = Mp::dec(&t.c, t.ct.len(), &t.tag);
            let rv = mbegin(&p, s, false, &mut mp, &t.c.aad);
            if rv == CKR_OK { let _ = mnext(&p, s, cx, false, Pol::Big, &mut mp, &t.ct, false)?; }
            p.cancel(s, CKF_MESSAGE_DECRYPT);
            let rv = mdec_init(&p, s, &mk, k);
            ensure!(rv == CKR_OK, "reinit", "{what}: after a cancelled message: {}", rvname(rv));
            cx.hit("abandoned message");
        }
        let got = open_msg(&p, s, cx, &t, m.dparts, &m.cuts, m.exact, false)?;
        let bad = got.is_err();
        judge(cx, &t, got, &what, &format!("{:?}", m.alter))?;
        if bad {
            // a refused message may end the decryption; encryption goes on
            mdec_final(&p, s);
            p.cancel(s, CKF_MESSAGE_DECRYPT);
            let rv = mdec_init(&p, s, &mk, k);
            ensure!(rv == CKR_OK, "reinit", "{what}: after a refused message: {}", rvname(rv));
            cx.hit("refused message in a session");
        }
        if i > 0 { cx.nt(); }
    }
    let rv = menc_final(&p, s);
    ensure!(rv == CKR_OK, "final", "C_MessageEncryptFinal {}", rvname(rv));
    mdec_final(&p, s);
    Ok(())
}

// ------------------------------------------------------------- generated nonces
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Nonces { gcm: bool, key: Hx, genr: u8, iv: Hx, fixed: u16, n: u16, parts: bool, /// offer the generated nonce again as input
    reuse: bool }
fn nonces() -> BoxedStrategy<Nonces> {
    any::<bool>().prop_flat_map(|gcm| {
        let iv = if gcm { prop_oneof![4 => hx(12), 1 => hx(1..=16usize), 1 => hx(16..=32usize)].boxed() } else { hx(7..=13usize) };
        (aeskey(), 1u8..=4, iv, any::<u8>(), any::<u16>(), prop_oneof![6 => 2u16..20, 1 => 100u16..400], any::<bool>(), any::<bool>()).prop_map(move |(key, genr, iv, fk, f, n, parts, reuse)| {
            let bits = iv.len() as u16 * 8;
            let fixed = match fk % 5 { 0 => 0, 1 => bits - f % 10.min(bits) - 1, 2 => (f % bits) / 8 * 8, 3 => bits.saturating_sub(64 + f % 3), _ => f % (bits + 1) };
            Nonces { gcm, key, genr, iv, fixed: fixed.min(bits), n, parts, reuse }
        })
    }).boxed()
}
fn run_nonces(c: &Nonces, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (g.p, g.s);
    let mode = if c.gcm { Mode::Gcm } else { Mode::Ccm };
    let k = aes_obj(&p, s, &c.key);
    let genr = [CKG_NO_GENERATE, CKG_GENERATE, CKG_GENERATE_COUNTER, CKG_GENERATE_RANDOM, CKG_GENERATE_COUNTER_XOR][c.genr as usize];
    let gn = ["", "GENERATE", "COUNTER", "RANDOM", "COUNTER_XOR"][c.genr as usize];
    let rv = menc_init(&p, s, &Mech::new(mode.ckm()), k);
    ensure!(rv == CKR_OK, "init", "{mode:?}: C_MessageEncryptInit {}", rvname(rv));
    let bits = c.iv.len() * 8 - c.fixed as usize;
    let space = if bits >= 32 { u64::MAX } else { 1u64 << bits };
    let d = [7u8; 5];
    let mut seen = BTreeSet::new();
    let mut iv = c.iv.0.clone();
    let what = format!("{mode:?} {gn} nonce of {} octets with {} fixed bits", c.iv.len(), c.fixed);
    for i in 0..c.n as u64 {
        // a counter is exclusive-ored into the value given, so that has to stay the same
        if !c.reuse || c.genr == 4 { iv = c.iv.0.clone(); }
        let mut mp = Mp::new(mode, &iv, c.fixed as u64, genr, d.len(), if c.gcm { 128 } else { 16 }, &[0; 16]);
        let (rv, o) = if c.parts {
            let rv = mbegin(&p, s, true, &mut mp, b"ad");
            if rv == CKR_OK { mnext(&p, s, cx, true, Pol::Big, &mut mp, &d, true)? } else { (rv, vec![]) }
        } else { mcrypt(&p, s, cx, true, Pol::Big, &mut mp, b"ad", &d)? };
        if rv != CKR_OK {
            let exhausted = i >= space;
            let weak = bits == 0 || c.genr == 3 && bits < 64;
            if exhausted { cx.hit("nonce space exhausted"); cx.nt(); break; }
            // random nonces need enough bits; how many is the library's choice
            ensure!(weak || c.genr == 3 && bits < 96 , "nonce-refused", "{what}: message {i} refused with {}", rvname(rv));
            cx.hit("too few bits to generate");
            return Ok(());
        }
        ensure!(bits > 0, "no-room", "{what}: accepted, nonce {}", hex(&mp.iv));
        // the fixed part is kept
        for b in 0..c.fixed as usize {
            ensure!((mp.iv[b / 8] ^ c.iv[b / 8]) >> (7 - b % 8) & 1 == 0, "fixed-bits-changed", "{what}: base {} became {}", hex(&c.iv), hex(&mp.iv));
        }
        ensure!(seen.insert(mp.iv.clone()), "nonce-repeated", "{what}: message {i} repeats the nonce {}", hex(&mp.iv));
        let ci = Ciph { mode, key: c.key.clone(), iv: Hx(mp.iv.clone()), aad: Hx(b"ad".to_vec()), n: 16 };
        let w = Tup::seal(&ci, &d);
        ensure!(o == w.ct && mp.tag == w.tag, "nonce-not-used", "{what}: the message does not decrypt with the returned nonce {}", hex(&mp.iv));
        iv = mp.iv.clone();
        if i > 0 { cx.nt(); }
    }
    cx.hit(&format!("{mode:?} {gn}"));
    // once messages have started, the counter goes on as long as the operation does
    menc_final(&p, s);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C14", level: "exploration", workers: 8, hang_s: 60,
        rule: "AES-GCM/CCM tuples (key, nonce, associated data, ciphertext, tag, tag length) sealed by the reference and altered in one or two ways, opened through C_Decrypt, update/final, C_DecryptMessage and Begin/Next; verdict and plaintext compared with the reference, refused calls searched for plaintext in the whole output buffer; message sessions with several messages; generated nonces checked for uniqueness, kept fixed bits and use; non-trivial: a verdict was compared (for sessions and nonces: from the second message on)",
        assumptions: &["the message interface does not take empty messages", "multi-part GCM decryption streams plaintext before the tag is checked, as PKCS#11 allows", "CKG_GENERATE_COUNTER_XOR callers present the same base each time", "a refused message may end the message decryption operation"],
        groups: vec![gen_("authenticity", 60000, 2000000, strat, run), gen_("message-sessions", 20000, 600000, sessions, run_sessions), gen_("nonces", 12000, 300000, nonces, run_nonces)],
    }
}
