#[path = "../../common/mod.rs"]
#[macro_use]
mod common;
mod text;
mod tree;
mod parse;

fn main() {
    common::main_with(|p| {
        Some(match p {
            "C06" => text::c06(),
            "C07" => text::c07(),
            "C08" => text::c08(),
            "C09" => tree::c09(),
            "C10" => tree::c10(),
            "C11" => tree::c11(),
            "C16" => tree::c16(),
            "C19" => tree::c19(),
            "C01" => parse::c01(),
            "C02" => parse::c02(),
            "C03" => parse::c03(),
            "C04" => parse::c04(),
            "C05" => parse::c05(),
            "C12" => parse::c12(),
            "C13" => parse::c13(),
            "C14" => parse::c14(),
            "C15" => parse::c15(),
            _ => return None,
        })
    })
}
