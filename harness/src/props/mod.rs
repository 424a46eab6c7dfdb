use crate::engine::Prop;

mod convert;
mod datetime;
mod env;
mod fb;
mod nums;
mod reent;
mod residue;
mod cost;
mod stlib;
mod strings;

pub const BOTH: &[&str] = &["checked", "release"];

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(strings::props());
    v.extend(convert::props());
    v.extend(datetime::props());
    v.extend(fb::props());
    v.extend(nums::props());
    v.extend(env::props());
    v.extend(stlib::props());
    v.extend(reent::props());
    v.extend(residue::props());
    v.extend(cost::props());
    v
}
pub fn find(id: &str) -> Prop {
    match all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no property {id}");
            std::process::exit(2)
        }
    }
}
