//! C08: token objects survive restarts unchanged.
use crate::crypt::*;
use crate::objmodel::*;
use crate::p11::pkcs11::*;
use crate::run::*;
use crate::tok::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { db: Db, ops: Vec<Op> }
const KEYK: [Kind; 8] = [Kind::Aes, Kind::Generic, Kind::Hmac, Kind::RsaPub, Kind::RsaPriv, Kind::EcPub, Kind::EcPriv, Kind::Mont];
fn ops(kinds: &'static [Kind]) -> BoxedStrategy<Vec<Op>> {
    let u = || any::<u8>();
    let op = prop_oneof![
        1 => any::<bool>().prop_map(Op::Open),
        8 => (u(), useful(kinds, 0.85)).prop_map(|(s, x)| Op::Make(s, x)),
        3 => (u(), u(), changes()).prop_map(|(s, o, t)| Op::Copy(s, o, t)),
        4 => (u(), u(), changes()).prop_map(|(s, o, t)| Op::Set(s, o, t)),
        2 => (u(), u()).prop_map(|(s, o)| Op::Destroy(s, o)),
        6 => (u(), u()).prop_map(|(s, o)| Op::Use(s, o)),
        4 => Just(Op::Restart),
        1 => (u(), u()).prop_map(|(s, k)| Op::Pin(s, k)),
    ];
    prop::collection::vec(op, 4..22).boxed()
}
fn run(c: &Case, cx: &mut Cx) -> R {
    let mut w = World::new(cx.tok.fresh(c.db))?;
    for op in &c.ops { w.step(cx, op)?; }
    for i in 0..w.objs.len() { let h = w.helper; w.use_key(cx, h, i, "before the last restart")?; }
    let kept = w.objs.iter().filter(|o| o.token()).count();
    if kept < w.objs.len() { cx.hit("session objects dropped by a restart"); }
    w.restart("the last restart")?;
    w.all("the last restart")?;
    for i in 0..w.objs.len() { let h = w.helper; w.use_key(cx, h, i, "after the last restart")?; }
    if kept >= 2 { cx.nt(); }
    Ok(())
}
pub fn prop() -> Prop {
    Prop { id: "C08", level: "exploration", workers: 8, hang_s: 60,
        rule: "a history is non-trivial when at least two token objects exist at the last restart",
        assumptions: &["a restart is C_Finalize followed by C_Initialize in the same process, which reopens the database files"],
        groups: vec![
            gen_("sqlite", 600, 25000, || ops(&KINDS).prop_map(|ops| Case { db: Db::Sqlite, ops }).boxed(), run),
            gen_("nss", 160, 6000, || ops(&KEYK).prop_map(|ops| Case { db: Db::Nss, ops }).boxed(), run),
        ] }
}
