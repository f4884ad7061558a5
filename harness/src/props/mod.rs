use crate::driver::Prop;
mod agree;
mod combi;
mod crash;
mod encode;
mod external;
mod framing;
mod limits;
mod objects;
mod pure;
mod values;

pub use external::{external, external_replay};

pub const IDS: [&str; 24] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19",
    "C20", "C21", "C22", "C23", "C24",
];

pub fn get(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => crash::c01(),
        "C02" => framing::c02(),
        "C03" => framing::c03(),
        "C04" => framing::c04(),
        "C05" => limits::c05(),
        "C06" => limits::c06(),
        "C07" => values::c07(),
        "C08" => values::c08(),
        "C09" => values::c09(),
        "C10" => values::c10(),
        "C11" => encode::c11(),
        "C12" => combi::c12(),
        "C13" => combi::c13(),
        "C14" => agree::c14(),
        "C15" => objects::c15(),
        "C16" => objects::c16(),
        "C17" => objects::c17(),
        "C19" => agree::c19(),
        "C21" => pure::c21(),
        "C22" => pure::c22(),
        "C23" => pure::c23(),
        "C24" => pure::c24(),
        _ => return None,
    })
}
