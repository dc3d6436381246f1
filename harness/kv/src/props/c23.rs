//! C23: saved operation state.
use super::c19::tlv;
use crate::crypt::*;
use crate::ops::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::run::*;
use crate::tok::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// how a blob comes about
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Blob {
    Junk(Hx),
    /// protected data of the right form: iv, tag, contents, optional trailing signature
    Formed(Hx, Hx, Hx, Option<Hx>),
    /// the same with the bytes changed at a place, or cut there
    Changed(Box<Blob>, Vec<(u16, u8)>, Option<u16>),
    /// the unencrypted form of an operation state: version, field, mechanism, data
    Plain(u8, u8, u32, Hx),
    /// what an earlier save gave (changed by one bit, if it gave anything)
    Saved(u16),
}
fn der(b: &Blob, saved: &[Vec<u8>]) -> Vec<u8> {
    match b {
        Blob::Junk(x) => x.0.clone(),
        Blob::Formed(iv, tag, d, sig) => {
            let gcm = tlv(0x30, &[tlv(4, iv), tlv(4, tag)].concat());
            let alg = tlv(0x30, &[tlv(6, &[0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x01, 0x2e]), gcm].concat());
            let mut v = [alg, tlv(4, d)].concat();
            if let Some(s) = sig { v.extend(tlv(4, s)); }
            tlv(0x30, &v)
        }
        Blob::Changed(b, f, cut) => {
            let mut v = der(b, saved);
            let n = v.len();
            if n > 0 { for (at, x) in f { v[*at as usize % n] ^= x; } }
            if let Some(c) = cut { v.truncate(*c as usize % (n + 1)); }
            v
        }
        Blob::Plain(ver, field, mech, d) => {
            let m = tlv(2, &[&[0u8][..], &mech.to_be_bytes()].concat());
            let inner = tlv(0xa0 | (field & 7), &[m, tlv(4, d)].concat());
            tlv(0x30, &[tlv(2, &[*ver]), inner].concat())
        }
        Blob::Saved(bit) => {
            let Some(v) = saved.last() else { return vec![] };
            let mut v = v.clone();
            let n = v.len() * 8;
            if n > 0 { let k = *bit as usize % n; v[k / 8] ^= 1 << (k % 8); }
            v
        }
    }
}
fn blob() -> BoxedStrategy<Blob> {
    let plain = (0u8..4, any::<u8>(), prop::sample::select(vec![CKM_SHA256 as u32, CKM_SHA_1 as u32, CKM_SHA512 as u32, CKM_SHA256_HMAC as u32, CKM_AES_CBC as u32, 0, 0xffff_ffff]), prop_oneof![hx(0), hx(104), hx(112), hx(216)]).prop_map(|(v, f, m, d)| Blob::Plain(v, f, m, d));
    let formed = (prop_oneof![6 => hx(12), 1 => hx(0), 1 => hx(16)], prop_oneof![6 => hx(8), 1 => hx(16), 1 => hx(0)], prop_oneof![hx(0), hx(16), hx(120), hx(300)], prop::option::weighted(0.2, hx(32)))
        .prop_map(|(i, t, d, s)| Blob::Formed(i, t, d, s));
    // contents that would be a valid state if no key were needed
    let inner = (plain.clone(), hx(12), hx(8)).prop_map(|(pl, i, t)| Blob::Formed(i, t, Hx(der(&pl, &[])), None));
    let base = prop_oneof![2 => (0usize..80).prop_flat_map(|n| hx(n)).prop_map(Blob::Junk), 4 => formed, 3 => inner, 2 => plain];
    let changed = (base.clone(), prop::collection::vec((any::<u16>(), 1u8..=255), 0..4), prop::option::of(any::<u16>())).prop_map(|(b, f, c)| Blob::Changed(Box::new(b), f, c));
    prop_oneof![4 => base, 3 => changed, 2 => any::<u16>().prop_map(Blob::Saved)].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    /// session, buffer size (none: size query only; 255: what the query says)
    Save(u8, Option<u8>),
    /// session, blob, encryption key and authentication key given
    Restore(u8, Blob, bool, bool),
}
fn act() -> BoxedStrategy<Act> {
    prop_oneof![
        (any::<u8>(), prop_oneof![2 => Just(None), 2 => any::<u8>().prop_map(Some), 3 => Just(Some(255))]).prop_map(|(s, b)| Act::Save(s, b)),
        (any::<u8>(), blob(), prop::bool::weighted(0.1), prop::bool::weighted(0.3)).prop_map(|(s, b, e, a)| Act::Restore(s, b, e, a)),
    ].boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { tasks: Vec<Task>, share: bool, sched: Vec<u8>, acts: Vec<(u8, Act)> }
fn strat() -> BoxedStrategy<Case> {
    (prop::collection::vec(task(true), 1..=3), any::<bool>(), prop::collection::vec(any::<u8>(), 0..24), prop::collection::vec((0u8..14, act()), 1..10))
        .prop_map(|(tasks, share, sched, acts)| Case { tasks, share, sched, acts }).boxed()
}
/// mostly digests and MACs: the operations whose state could be saved
fn hashes() -> BoxedStrategy<Case> {
    strat().prop_flat_map(|c| (Just(c), prop::collection::vec((0u8..11, mac(false), 0u8..3), 3))).prop_map(|(mut c, w)| {
        for (t, (h, m, k)) in c.tasks.iter_mut().zip(w) {
            t.w = match k { 0 => What::Dig(h), 1 => What::Sign(m), _ => What::Verify(m) };
            t.oneshot = false;
        }
        c
    }).boxed()
}
fn run(c: &Case, cx: &mut Cx) -> R {
    let gs: Vec<SG> = (0..c.tasks.len() + 1).map(|_| session(cx)).collect();
    let p = gs[0].p;
    let mut used: Vec<u8> = vec![];
    let mut runs: Vec<Run> = vec![];
    for (i, t) in c.tasks.iter().enumerate() {
        let k = t.w.kind();
        let s = if c.share && !used.contains(&k) { used.push(k); gs[0].s } else { gs[i].s };
        let s = if i > 0 && s == gs[0].s && runs.iter().any(|r| r.s == s && r.t.w.kind() == k) { gs[i].s } else { s };
        runs.push(Run::new(&p, s, t));
    }
    let n = runs.len();
    let (mut i, mut saved) = (0, vec![]);
    loop {
        for (_, a) in c.acts.iter().filter(|(at, _)| *at as usize == i) { one(&p, cx, &gs, &runs, a, &mut saved)?; }
        let Some(first) = runs.iter().position(|r| !r.done) else { break };
        let mut k = c.sched.get(i).map(|x| *x as usize % n).unwrap_or(first);
        if runs[k].done { k = first; }
        i += 1;
        runs[k].step(cx)?;
    }
    for (_, a) in c.acts.iter().filter(|(at, _)| *at as usize > i) { one(&p, cx, &gs, &runs, a, &mut saved)?; }
    for r in runs.iter_mut() { r.verdict(cx)?; }
    // no attempt left an operation behind
    for g in &gs {
        let (rv, _) = p.digest_final(g.s);
        ensure!(rv == CKR_OPERATION_NOT_INITIALIZED, "left", "a digest can be finished in a session without operation: {}", rvname(rv));
        let (rv, _) = p.sign_final(g.s);
        ensure!(rv == CKR_OPERATION_NOT_INITIALIZED, "left", "a signature can be finished in a session without operation: {}", rvname(rv));
    }
    Ok(())
}
fn one(p: &P, cx: &mut Cx, gs: &[SG], runs: &[Run], a: &Act, saved: &mut Vec<Vec<u8>>) -> R {
    let pick = |k: u8| gs[k as usize * gs.len() / 256].s;
    let here = |s: Sess| -> Vec<&Run> { runs.iter().filter(|r| r.s == s).collect() };
    match a {
        Act::Save(k, buf) => {
            let s = pick(*k);
            let live = here(s).iter().any(|r| r.phase().0);
            let idle = here(s).iter().all(|r| r.phase().1);
            let judge = |rv: Rv, what: &str| -> R {
                let ok = rv == CKR_OK || rv == CKR_STATE_UNSAVEABLE || rv == CKR_OPERATION_NOT_INITIALIZED || (rv == CKR_BUFFER_TOO_SMALL && what != "size");
                ensure!(ok, "save-code", "C_GetOperationState ({what}): {}", rvname(rv));
                if live { ensure!(rv != CKR_OPERATION_NOT_INITIALIZED, "save-code", "C_GetOperationState ({what}): {} with an operation active", rvname(rv)); }
                if idle { ensure!(rv == CKR_OPERATION_NOT_INITIALIZED, "save-idle", "C_GetOperationState ({what}): {} without operation", rvname(rv)); }
                Ok(())
            };
            let mut l: CK_ULONG = 0;
            let lp: *mut CK_ULONG = &mut l;
            let z: *mut u8 = std::ptr::null_mut();
            let q = F!(p.C_GetOperationState(s, z, lp));
            judge(q, "size")?;
            cx.hit(if live { "size with an operation active" } else if idle { "size without operation" } else { "size after an operation" });
            let Some(b) = buf else { return Ok(()) };
            let cap = if *b == 255 { if q == CKR_OK { l as usize } else { 8192 } } else { *b as usize };
            let (rv, out, _) = p.out(cap, |b, l| F!(p.C_GetOperationState(s, b, l)));
            judge(rv, "save")?;
            ensure!((q == CKR_OK) == (rv == CKR_OK || rv == CKR_BUFFER_TOO_SMALL), "save-size", "size query {} but save {}", rvname(q), rvname(rv));
            ensure!(*b != 255 || rv != CKR_BUFFER_TOO_SMALL, "save-size", "the size the query gave is too small");
            if live { cx.nt(); }
            if rv != CKR_OK { return Ok(()); }
            cx.hit("saved");
            // the state continues, in another session, to what the operation must come to
            let t = session(cx);
            for r in here(s).into_iter().filter(|r| r.phase().0) {
                let auth = match r.t.w { What::Sign(_) | What::Verify(_) => r.k, _ => 0 };
                let rv = p.set_state(t.s, &out, 0, auth);
                ensure!(rv == CKR_OK, "restore", "the state of {} cannot be restored: {}", r.t.w.name(), rvname(rv));
                let mut r2 = r.clone();
                r2.s = t.s;
                while !r2.done { r2.step(cx)?; }
                r2.verdict(cx)?;
            }
            saved.push(out);
        }
        Act::Restore(k, b, e, a) => {
            let s = pick(*k);
            let d = der(b, saved);
            let key = runs.first().map(|r| r.k).unwrap_or(0);
            let rv = p.set_state(s, &d, if *e { key.max(1) } else { 0 }, if *a { key.max(1) } else { 0 });
            ensure!(rv != CKR_OK, "made-up", "C_SetOperationState accepted {b:?}");
            ensure!(rv == CKR_SAVED_STATE_INVALID || *e || *a || d.is_empty(), "restore-code", "C_SetOperationState of {b:?}: {}", rvname(rv));
            let live = here(s).iter().any(|r| r.phase().0);
            if live { cx.nt(); }
            cx.hit(match b { Blob::Junk(_) => "junk", Blob::Formed(..) => "well-formed", Blob::Changed(..) => "changed", Blob::Plain(..) => "unencrypted", Blob::Saved(_) => "saved, altered" });
            if here(s).iter().all(|r| r.phase().1) {
                let mut x = 0;
                let xp: *mut CK_ULONG = &mut x;
                let z: *mut u8 = std::ptr::null_mut();
                let q = F!(p.C_GetOperationState(s, z, xp));
                ensure!(q == CKR_OPERATION_NOT_INITIALIZED, "restored", "after a refused restore the session has an operation: {}", rvname(q));
                let rv = p.digest_update(s, b"x");
                ensure!(rv == CKR_OPERATION_NOT_INITIALIZED, "restored", "after a refused restore C_DigestUpdate gives {}", rvname(rv));
                cx.hit("idle session stays idle");
            }
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C23", level: "exploration", workers: 8, hang_s: 60,
        rule: "1 to 3 operations of every kind fed in parts under a random schedule, with attempts to save (size query, buffers too small and large enough) and to restore (junk, well-formed made-up, mutated, cut, unencrypted and altered saved blobs, with and without keys) at random points in the sessions with operations and idle ones; every operation compared with its reference result afterwards, sessions without operation stay so; a state that is given must continue to the reference result in a fresh session; non-trivial: an attempt was made while an operation was active in that session",
        assumptions: &["the OpenSSL 3.0 of this build cannot export digest states, so every save is answered with CKR_STATE_UNSAVEABLE and the resumed computation is never reached here"],
        groups: vec![gen_("mixed", 15000, 400000, strat, run), gen_("hashes", 15000, 400000, hashes, run)],
    }
}
