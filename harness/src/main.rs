#[macro_use]
extern crate adapton;
mod common;
mod model;
mod rsim;
mod comps;
mod props_cost;
mod props_local;
mod props_release;
mod props_eq;
mod props_focus;
mod props_lists;
mod props_raz2;
mod props_reuse;
mod props_tree;
mod props_raz;
mod props_conv;
mod props_nest;

use common::*;
use props_raz::*;
use rsim::*;

fn dispatch(o: &Opts) -> i32 {
    match o.id.as_str() {
        "C01" => drive(&RazHist { ck: CK_ONLY_ELEMS, metas: &[0, 1, 2, 3, 4], quick: 30_000, thorough: 200_000 }, o),
        "C02" => drive(&props_focus::FocusProp { names: false }, o),
        "C06" => drive(&props_focus::FocusProp { names: true }, o),
        "C03" => drive(&RazHist { ck: CK_TOKS | CK_WELL, metas: &[0, 1, 2, 3, 4], quick: 30_000, thorough: 200_000 }, o),
        "C04" => drive(&RazHist { ck: CK_SHAPE, metas: &[0, 1, 2, 3, 4], quick: 20_000, thorough: 200_000 }, o),
        "C05" => drive(&RazHist { ck: CK_META | CK_NAV, metas: &[0, 2, 3, 3, 4], quick: 20_000, thorough: 200_000 }, o),
        "C07" => drive(&Comps { which: comps::C_UP, every: false, dcg_only: false, quick: 8000, thorough: 200_000 }, o),
        "C08" => drive(&Comps { which: comps::C_LR, every: false, dcg_only: false, quick: 16_000, thorough: 200_000 }, o),
        "C09" => drive(&Comps { which: comps::C_MAPS, every: false, dcg_only: false, quick: 8000, thorough: 200_000 }, o),
        "C10" => drive(&Comps { which: comps::C_ALL, every: true, dcg_only: true, quick: 8000, thorough: 200_000 }, o),
        "C11" => drive(&props_reuse::Reuse, o),
        "C13" => drive(&props_raz2::Persist, o),
        "C14" => drive(&props_raz2::Agree, o),
        "C15" => drive(&props_raz2::JoinProp, o),
        "C12" => drive(&props_raz2::FromStack, o),
        "C16" => drive(&props_lists::AStackProp, o),
        "C17" => drive(&props_lists::StackProp, o),
        "C18" => drive(&props_tree::LevelTreeProp, o),
        "C19" => drive(&props_tree::CursorProp { iter_only: false }, o),
        "C20" => drive(&props_tree::CursorProp { iter_only: true }, o),
        "C21" => drive(&props_tree::LevelsProp, o),
        "C22" => drive(&props_lists::SkipProp, o),
        "C28" => drive(&props_eq::EqProp, o),
        "C29" => drive(&props_local::LocalProp, o),
        "C30" => drive(&props_release::ReleaseProp, o),
        "C34" => drive(&props_conv::ConvProp, o),
        "C36" => drive(&props_nest::NestProp, o),
        "C23" => drive(&props_cost::CostProp, o),
        _ => {
            eprintln!("unknown property {}", o.id);
            2
        }
    }
}

fn main() {
    start(dispatch)
}
