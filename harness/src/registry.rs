pub struct Entry {
    pub name: &'static str,
    pub kind: &'static str,
    pub run: fn(&mut dyn src::Src) -> src::Out,
}

pub mod bounds;
pub mod byteset;
pub mod parser;
pub mod readctxt;
pub mod arrays;
pub mod value;
pub mod expr;
pub mod interp;
pub mod modular;
pub mod choice;
pub mod full;
pub mod loc;
pub mod seqs;
pub mod rt;
pub mod size;
pub mod types;

pub const MODULES: &[(&str, &[Entry])] = &[
    ("bounds", bounds::REG),
    ("byteset", byteset::REG),
    ("parser", parser::REG),
    ("readctxt", readctxt::REG),
    ("arrays", arrays::REG),
    ("value", value::REG),
    ("expr", expr::REG),
    ("modular", modular::REG),
    ("choice", choice::REG),
    ("full", full::REG),
    ("loc", loc::REG),
    ("seqs", seqs::REG),
    ("rt", rt::REG),
    ("size", size::REG),
    ("types", types::REG),
];
