//! The properties
use crate::runner::DynProp;

mod big;
mod broken;
mod cells;
mod growth;
mod hp;
mod infoset;
pub mod input;
mod keep;
mod meta;
mod parts;
mod save;
mod styles;

pub fn get(id: &str) -> Option<Box<dyn DynProp>> {
    if let Some(p) = hp::get(id) {
        return Some(p);
    }
    if let Some(p) = keep::get(id) {
        return Some(Box::new(p));
    }
    Some(match id {
        "C33" => Box::new(big::C33),
        "C34" => Box::new(growth::C34),
        "C29" => Box::new(broken::C29),
        "C03" => Box::new(parts::C03),
        "C04" => Box::new(parts::C04),
        "C05" => Box::new(infoset::C05),
        "C08" => Box::new(keep::C08),
        "C09" => Box::new(styles::C09),
        "C10" => Box::new(styles::c10()),
        "C14" => Box::new(infoset::C14),
        "C15" => Box::new(input::C15),
        "C16" => Box::new(input::C16),
        "C17" => Box::new(save::C17),
        "C18" => Box::new(cells::C18),
        "C19" => Box::new(input::C19),
        "C32" => Box::new(input::C32),
        "C22" => Box::new(keep::C22),
        "C24" => Box::new(meta::C24),
        "C25" => Box::new(meta::C25),
        "C26" => Box::new(meta::C26),
        "C27" => Box::new(parts::C27),
        _ => return None,
    })
}
pub fn child(a: &[String]) -> i32 {
    match a.first().map(|s| s.as_str()) {
        Some("save") if a.len() == 3 => save::child(&a[1..]),
        _ => 2,
    }
}
