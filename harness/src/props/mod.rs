pub mod common;
pub mod parse;
pub mod evalp;
pub mod funcs;
pub mod misc;
pub mod api;
pub mod show;
pub mod work;

use crate::engine::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(parse::props());
    v.extend(evalp::props());
    v.extend(funcs::props());
    v.extend(misc::props());
    v.extend(api::props());
    v.extend(show::props());
    v.extend(work::props());
    v
}
