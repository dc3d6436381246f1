//! C25: searches against the object model.
use crate::objmodel::*;
use crate::run::*;
use crate::tok::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { db: Db, ops: Vec<Op> }
const KEYK: [Kind; 8] = [Kind::Aes, Kind::Generic, Kind::Hmac, Kind::RsaPub, Kind::RsaPriv, Kind::EcPub, Kind::EcPriv, Kind::Mont];
fn ops(kinds: &'static [Kind]) -> BoxedStrategy<Vec<Op>> {
    let u = || any::<u8>();
    let op = prop_oneof![
        2 => any::<bool>().prop_map(Op::Open),
        1 => u().prop_map(Op::Close), 1 => Just(Op::CloseEach),
        8 => (u(), spec(kinds, 0, 0.6)).prop_map(|(s, x)| Op::Make(s, x)),
        3 => (u(), u(), changes()).prop_map(|(s, o, t)| Op::Copy(s, o, t)),
        3 => (u(), u(), changes()).prop_map(|(s, o, t)| Op::Set(s, o, t)),
        1 => (u(), u()).prop_map(|(s, o)| Op::Destroy(s, o)),
        20 => (u(), u(), prop::collection::vec(u(), 24)).prop_map(|(s, o, l)| Op::Find(s, o, l)),
        1 => u().prop_map(Op::Logout),
        1 => (u(), prop::bool::weighted(0.2)).prop_map(|(s, so)| Op::Login(s, so)),
        1 => Just(Op::Restart),
    ];
    prop::collection::vec(op, 8..40).boxed()
}
fn run(c: &Case, cx: &mut Cx) -> R {
    let mut w = World::new(cx.tok.fresh(c.db))?;
    for op in &c.ops { w.step(cx, op)?; }
    if c.ops.iter().filter(|o| matches!(o, Op::Find(..))).count() >= 3 && w.used.len() > w.builtin.len() + 1 { cx.nt(); }
    Ok(())
}
pub fn prop() -> Prop {
    Prop { id: "C25", level: "exploration", workers: 8, hang_s: 60,
        rule: "a history is non-trivial when it makes at least three searches over a store with objects",
        assumptions: &["a zero-length template value is not judged against an attribute the object does not have", "on NSS storage a search naming a secret attribute may be refused with CKR_ATTRIBUTE_SENSITIVE"],
        groups: vec![
            gen_("sqlite", 3000, 60000, || ops(&KINDS).prop_map(|ops| Case { db: Db::Sqlite, ops }).boxed(), run),
            gen_("nss", 500, 8000, || ops(&KEYK).prop_map(|ops| Case { db: Db::Nss, ops }).boxed(), run),
        ] }
}
