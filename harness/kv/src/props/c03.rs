//! C03: private objects while the user is not logged in.
use crate::objmodel::*;
use crate::run::*;
use crate::tok::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { db: Db, ops: Vec<Op> }
const KEYK: [Kind; 8] = [Kind::Aes, Kind::Generic, Kind::Hmac, Kind::RsaPub, Kind::RsaPriv, Kind::EcPub, Kind::EcPriv, Kind::Mont];
fn ops(kinds: &'static [Kind]) -> BoxedStrategy<Vec<Op>> {
    let u = || any::<u8>();
    let make = |w: u32, t: f64| (w, (u(), useful(kinds, t)).prop_map(|(s, x)| Op::Make(s, x)).boxed());
    let (m1, m2) = (make(4, 0.8), make(8, 0.6));
    let op = prop_oneof![
        2 => any::<bool>().prop_map(Op::Open),
        1 => u().prop_map(Op::Close), 1 => Just(Op::CloseEach),
        m1.0 => m1.1,
        2 => (u(), u(), changes()).prop_map(|(s, o, t)| Op::Copy(s, o, t)),
        2 => (u(), u(), changes()).prop_map(|(s, o, t)| Op::Set(s, o, t)),
        2 => (u(), u()).prop_map(|(s, o)| Op::Destroy(s, o)),
        2 => (u(), u(), prop::collection::vec(u(), 24)).prop_map(|(s, o, l)| Op::Find(s, o, l)),
        2 => (u(), u(), prop::collection::vec((u(), u()), 1..6)).prop_map(|(s, o, l)| Op::Get(s, o, l)),
        1 => (u(), u()).prop_map(|(s, o)| Op::Size(s, o)),
        2 => (u(), u()).prop_map(|(s, o)| Op::Use(s, o)),
        14 => (u(), u(), u()).prop_map(|(s, o, k)| Op::Probe(s, o, k)),
        3 => u().prop_map(Op::Logout),
        2 => (u(), prop::bool::weighted(0.5)).prop_map(|(s, so)| Op::Login(s, so)),
        1 => Just(Op::Restart),
        1 => Just(Op::CloseAll),
    ];
    (prop::collection::vec(m2.1, 1..6), prop::collection::vec(op, 8..40)).prop_map(|(mut a, b)| { a.push(Op::Logout(0)); a.extend(b); a }).boxed()
}
fn run(c: &Case, cx: &mut Cx) -> R {
    let mut w = World::new(cx.tok.fresh(c.db))?;
    let mut tried = 0;
    for op in &c.ops {
        if w.who != Who::User && w.objs.iter().any(|o| !w.visible(o)) { tried += 1; }
        w.step(cx, op)?;
    }
    if w.who != Who::None { w.step(cx, &Op::Logout(0))?; }
    w.all("at the end, logged out")?;
    w.step(cx, &Op::Login(0, false))?;
    w.all("at the end, logged in again")?;
    if tried >= 3 { cx.nt(); }
    Ok(())
}
pub fn prop() -> Prop {
    Prop { id: "C03", level: "exploration", workers: 8, hang_s: 60,
        rule: "a history is non-trivial when at least three calls are made while private token objects exist and the user is logged out",
        assumptions: &["private session objects are not created while the user is logged out", "changing public token objects without a login is not judged (the library asks for a login)"],
        groups: vec![
            gen_("sqlite", 2400, 60000, || ops(&KINDS).prop_map(|ops| Case { db: Db::Sqlite, ops }).boxed(), run),
            gen_("nss", 320, 8000, || ops(&KEYK).prop_map(|ops| Case { db: Db::Nss, ops }).boxed(), run),
        ] }
}
