use crate::rt::DynPart;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: String,
    pub parts: Vec<Box<dyn DynPart>>,
    pub extra_assumptions: Vec<&'static str>,
}
impl Prop {
    pub fn assumptions(&self) -> Vec<&'static str> {
        let mut v = vec![
            "didcomm is built against the offline stand-in for askar-crypto in /verif/standin (real cryptography, validated by the published DIDComm test vectors), not against aries-askar itself",
        ];
        v.extend(&self.extra_assumptions);
        v
    }
}
pub fn prop(id: &'static str, rule: &'static str, parts: Vec<Box<dyn DynPart>>) -> Prop {
    Prop { id, level: "exploration", rule: rule.into(), parts, extra_assumptions: vec![] }
}
#[macro_export]
macro_rules! part {
    ($name:expr, $q:expr, $t:expr, $strat:expr, $check:expr) => {
        Box::new($crate::rt::Part { name: $name, cases: ($q, $t), strat: $strat, check: $check }) as Box<dyn $crate::rt::DynPart>
    };
}

mod across;
pub mod common;
mod data;
mod envelope;
mod forge;
mod select;
mod style;
#[cfg(feature = "ffi")]
mod ffi;
#[cfg(feature = "js")]
mod js;
mod prior;
mod fuzz;
mod history;
mod keys;
mod ops;
mod routing;
mod tamper;
mod why;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(envelope::props());
    v.extend(data::props());
    v.extend(tamper::props());
    v.extend(forge::props());
    v.extend(prior::props());
    v.extend(fuzz::props());
    v.extend(history::props());
    v.extend(style::props());
    #[cfg(feature = "ffi")]
    v.extend(ffi::props());
    #[cfg(feature = "js")]
    v.extend(js::props());
    v.extend(keys::props());
    v.extend(ops::props());
    v.extend(routing::props());
    v.extend(select::props());
    v.extend(why::props());
    across::extend(&mut v);
    v
}
