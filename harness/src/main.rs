//! Executable oracles for the properties, run on the real crate through its public interface.
//!
//! `harness PROPERTY TIER SEED OUT.json` - bounded search for an input on which the property fails.
mod cx;
mod lenient;
mod names;
mod nodes;
mod patterns;
mod strict;
mod strictref;
mod tree;
mod xml;

use cx::Cx;

fn run(c: &mut Cx) -> bool {
    match c.prop.as_str() {
        "C01" => tree::c01(c),
        "C02" => tree::c02(c),
        "C03" => tree::c03(c),
        "C04" => tree::c04(c),
        "C05" => tree::c05(c),
        "C06" => patterns::c06(c),
        "C07" => tree::c07(c),
        "C08" => tree::c08(c),
        "C09" => tree::c09(c),
        "C10" => nodes::c10(c),
        "C11" => nodes::c11(c),
        "C12" => xml::c12(c),
        "C13" => lenient::c13(c),
        "C14" => strict::c14(c),
        "C15" => strict::c15(c),
        "C16" => strict::c16(c),
        "C17" => strict::c17(c),
        "C18" => strict::c18(c),
        "C19" => tree::c19(c),
        "C20" => tree::c20(c),
        "C21" => tree::c21(c),
        _ => return false,
    }
    true
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() != 5 {
        eprintln!("usage: harness PROPERTY quick|thorough SEED OUT.json");
        std::process::exit(2);
    }
    let (prop, tier, seed, out) = (a[1].clone(), a[2].clone(), a[3].parse().unwrap_or(1), a[4].clone());
    // room for documents nested some hundred levels deep
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let mut c = Cx::new(&prop, tier == "thorough", seed, &out);
            if !run(&mut c) {
                eprintln!("unknown property {prop}");
                std::process::exit(2);
            }
            c.finish()
        })
        .unwrap();
    let failed = h.join().unwrap_or(true);
    std::process::exit(i32::from(failed));
}
