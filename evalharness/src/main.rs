//! Monitors for the eval crate (benchmark harness structures, actions, drivers).
#[path = "../../harness/src/common.rs"]
mod common;
#[path = "../../harness/src/model.rs"]
#[allow(dead_code)]
mod model;
mod lists;
mod harness;
mod actions;
mod types;
mod local;

use common::*;

fn dispatch(o: &Opts) -> i32 {
    match o.id.as_str() {
        "C24" => drive(&lists::ListProp, o),
        "C25" => drive(&harness::HarnessProp { comps: false }, o),
        "C26" => drive(&harness::HarnessProp { comps: true }, o),
        "C27" => drive(&actions::ActionProp, o),
        "C35" => drive(&local::LocalProp, o),
        "C31" => drive(&types::TypesProp, o),
        _ => {
            eprintln!("unknown property {}", o.id);
            2
        }
    }
}

fn main() {
    start(dispatch)
}
