//! C13: multi-part, one-shot, interleaved and combined operations agree.
use crate::crypt::*;
use crate::ops::*;
use crate::p11::pkcs11::*;
use crate::p11::*;
use crate::run::*;
use crate::tok::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { tasks: Vec<Task>, share: bool, sched: Vec<u8> }

fn strat() -> BoxedStrategy<Case> {
    (prop::collection::vec(task(true), 1..=3), any::<bool>(), prop::collection::vec(any::<u8>(), 0..30))
        .prop_map(|(tasks, share, sched)| Case { tasks, share, sched }).boxed()
}
fn run(c: &Case, cx: &mut Cx) -> R {
    let gs: Vec<SG> = (0..c.tasks.len()).map(|_| session(cx)).collect();
    let p = gs[0].p;
    // tasks of different kinds may share a session
    let mut used: Vec<u8> = vec![];
    let mut runs: Vec<Run> = vec![];
    for (i, t) in c.tasks.iter().enumerate() {
        let k = t.w.kind();
        let s = if c.share && !used.contains(&k) { used.push(k); gs[0].s } else { gs[i].s };
        let s = if i > 0 && s == gs[0].s && runs.iter().any(|r| r.s == s && r.t.w.kind() == k) { gs[i].s } else { s };
        runs.push(Run::new(&p, s, t));
    }
    let n = runs.len();
    let mut i = 0;
    while let Some(first) = runs.iter().position(|r| !r.done) {
        let mut k = c.sched.get(i).map(|x| *x as usize % n).unwrap_or(first);
        if runs[k].done { k = first; }
        i += 1;
        runs[k].step(cx)?;
    }
    if n > 1 && !c.sched.is_empty() { cx.hit("interleaved"); }
    for r in runs.iter_mut() { r.verdict(cx)?; }
    Ok(())
}

/// combined updates
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Dual { kind: u8, c: Ciph, h: u8, m: Mac, data: Hx, cuts: Vec<u8>, plain: Vec<bool>, pols: Vec<Pol> }
fn duals() -> BoxedStrategy<Dual> {
    (0u8..4, ciph(&[Mode::Cbc, Mode::CbcPad, Mode::Ctr, Mode::Ofb, Mode::Cfb8, Mode::Cfb128, Mode::Ecb]), 0u8..11, mac(false), 1usize..14, prop::collection::vec(any::<u8>(), 1..5), prop::collection::vec(prop::bool::weighted(0.2), 1..6), prop::collection::vec(pol(), 1..5))
        .prop_flat_map(|(kind, c, h, m, n, cuts, plain, pols)| hx(n * 16).prop_map(move |data| Dual { kind, c: c.clone(), h, m: m.clone(), data, cuts: cuts.clone(), plain: plain.clone(), pols: pols.clone() })).boxed()
}
fn run_dual(x: &Dual, cx: &mut Cx) -> R {
    let g = session(cx);
    let (p, s) = (g.p, g.s);
    let k = aes_obj(&p, s, &x.c.key);
    if x.c.mode == Mode::Ctr && x.c.ctr_room() < 20 { return Ok(()); }
    let ct = x.c.enc(&x.data);
    let (sk, vk) = x.m.keys(&p, s);
    let name = format!("{} with {:?}", ["DigestEncrypt", "DecryptDigest", "SignEncrypt", "DecryptVerify"][x.kind as usize], x.c.mode);
    let enc = x.kind % 2 == 0;
    let input = if enc { &x.data.0 } else { &ct };
    let rv = if enc { p.encrypt_init(s, &x.c.mech(x.data.len()), k) } else { p.decrypt_init(s, &x.c.mech(x.data.len()), k) };
    ensure!(rv == CKR_OK, "init", "{name}: {}", rvname(rv));
    let rv = match x.kind { 0 | 1 => p.digest_init(s, &Mech::new(HT[x.h as usize].ckm)), 2 => p.sign_init(s, &x.m.mech(), sk), _ => p.verify_init(s, &x.m.mech(), vk) };
    ensure!(rv == CKR_OK, "init", "{name}: second init {}", rvname(rv));
    let mut cuts: Vec<usize> = x.cuts.iter().map(|v| *v as usize * (input.len() + 1) / 256).collect();
    // ciphers that need whole blocks per part are exercised with whole blocks
    cuts.push(input.len());
    cuts.sort();
    let mut out = vec![];
    let mut covered: Vec<u8> = vec![];
    let mut a = 0;
    let mut ncombined = 0;
    for (i, b) in cuts.iter().enumerate() {
        let d = input[a..*b].to_vec();
        a = *b;
        let (dp, dl) = (dbytes(&d), ul(&d));
        let pl = x.pols[i % x.pols.len()];
        let separate = x.plain[i % x.plain.len()];
        let (rv, o) = if separate {
            if enc { call(&p, cx, &name, pl, |b, l| F!(p.C_EncryptUpdate(s, dp, dl, b, l)))? } else { call(&p, cx, &name, pl, |b, l| F!(p.C_DecryptUpdate(s, dp, dl, b, l)))? }
        } else {
            ncombined += 1;
            match x.kind {
                0 => call(&p, cx, &name, pl, |b, l| F!(p.C_DigestEncryptUpdate(s, dp, dl, b, l)))?,
                1 => call(&p, cx, &name, pl, |b, l| F!(p.C_DecryptDigestUpdate(s, dp, dl, b, l)))?,
                2 => call(&p, cx, &name, pl, |b, l| F!(p.C_SignEncryptUpdate(s, dp, dl, b, l)))?,
                _ => call(&p, cx, &name, pl, |b, l| F!(p.C_DecryptVerifyUpdate(s, dp, dl, b, l)))?,
            }
        };
        ensure!(rv == CKR_OK, "combined-update", "{name}: part {i} of {} bytes: {}", d.len(), rvname(rv));
        if !separate { if enc { covered.extend(&d) } else { covered.extend(&o) } }
        out.extend(o);
    }
    let (rv, o) = if enc { p.encrypt_final(s) } else { p.decrypt_final(s) };
    ensure!(rv == CKR_OK, "cipher-final", "{name}: {}", rvname(rv));
    out.extend(o);
    let want = if enc { &ct } else { &x.data.0 };
    ensure!(out == *want, "cipher-result", "{name}: {} instead of {}", hex(&out), hex(want));
    if matches!(x.m.k, MacK::AesMac | MacK::AesMacGen) && covered.is_empty() && x.kind >= 2 { return Ok(()); }
    match x.kind {
        0 | 1 => {
            let (rv, o) = p.digest_final(s);
            let w = HT[x.h as usize].h.hash(&covered);
            ensure!(rv == CKR_OK && o == w, "digest-result", "{name}: {} {} instead of {}", rvname(rv), hex(&o), hex(&w));
        }
        2 => {
            let (rv, o) = p.sign_final(s);
            let w = x.m.value(&covered).unwrap();
            ensure!(rv == CKR_OK && o == w, "mac-result", "{name} {}: {} {} instead of {}", x.m.name(), rvname(rv), hex(&o), hex(&w));
        }
        _ => {
            let rv = p.verify_final(s, &x.m.value(&covered).unwrap());
            ensure!(rv == CKR_OK, "verify-result", "{name} {}: {}", x.m.name(), rvname(rv));
        }
    }
    if ncombined > 1 { cx.nt(); }
    cx.hit(&name);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C13", level: "exploration", workers: 8, hang_s: 60,
        rule: "1 to 3 operations, each cut into random parts (empty ones included) and fed with random buffer policies, interleaved by a random schedule over shared or separate sessions; each final result compared with the reference value of the whole data; combined updates compared with the separate computations; non-trivial: a full result or verdict was compared",
        assumptions: &["key wrap and CTS mechanisms may refuse data in several parts", "a CTR counter within two blocks of its end may be refused", "CBC-MAC of no data is left out"],
        groups: vec![gen_("tasks", 60000, 2000000, strat, run), gen_("combined", 30000, 600000, duals, run_dual)],
    }
}
