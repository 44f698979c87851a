//! Deterministic simulation of the oraiswap-v3 contract and its client SDK. See /verif/DESIGN.md.
mod chain;
mod check;
mod driver;
mod gen;
mod model;
mod num;
mod oracle;
mod profiles;
mod run;

fn main() {
    let loud = std::env::var("SIM_LOUD").is_ok();
    std::panic::set_hook(Box::new(move |i| {
        if loud && i.location().map(|l| l.file().starts_with("src/")).unwrap_or(false) {
            eprintln!("{i}");
        }
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(driver::main(&args));
}
