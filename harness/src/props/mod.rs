use crate::engine::Property;
pub mod build;
pub mod fst;
pub mod window;
pub mod structs;
pub mod reader;
pub mod dirs;
pub mod faults;
pub mod copy;
pub mod malformed;
pub mod extract;
pub mod tool;
pub mod inputs;

type Make = fn() -> Property;
const ALL: &[(&str, Make)] = &[
    ("C01", build::c01),
    ("C02", build::c02),
    ("C03", reader::c03),
    ("C04", window::c04),
    ("C05", fst::c05),
    ("C06", fst::c06),
    ("C07", dirs::c07),
    ("C08", extract::c08),
    ("C09", extract::c09),
    ("C10", malformed::c10),
    ("C11", faults::c11),
    ("C12", faults::c12),
    ("C13", faults::c13),
    ("C14", structs::c14),
    ("C15", tool::c15),
    ("C16", tool::c16),
    ("C17", extract::c17),
    ("C18", copy::c18),
    ("C19", extract::c19),
    ("C20", inputs::c20),
];

pub fn get(id: &str) -> Option<Property> {
    ALL.iter().find(|x| x.0 == id).map(|x| (x.1)())
}

pub fn ids() -> Vec<&'static str> {
    ALL.iter().map(|x| x.0).collect()
}
