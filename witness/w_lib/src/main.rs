#[path = "../../common.rs"]
#[macro_use]
mod common;
mod eventid;
mod mk;
mod payload;
mod profile;
mod profiler;
mod raw;
mod sink;
mod strings;
mod summ;
mod tools;
mod trace;
mod view;

fn main() {
    if let Ok(stem) = std::env::var("VX_CHILD") { return profiler::child(&stem); }
    let mut t: Vec<(&str, &str, common::Case)> = vec![];
    t.extend_from_slice(sink::CASES);
    t.extend_from_slice(payload::CASES);
    t.extend_from_slice(raw::CASES);
    t.extend_from_slice(strings::CASES);
    t.extend_from_slice(eventid::CASES);
    t.extend_from_slice(profile::CASES);
    t.extend_from_slice(profiler::CASES);
    t.extend_from_slice(summ::CASES);
    t.extend_from_slice(tools::CASES);
    t.extend_from_slice(trace::CASES);
    t.extend_from_slice(view::CASES);
    common::main_with(&t);
}
