#![allow(dead_code)]
mod c01;
mod c02;
mod c03;
mod cases;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c17;
mod c18;
mod heap;
mod c19;
mod c20;
mod c21;
mod qr;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod pty;
mod c15;
mod c16;
mod c22;
mod cli;
mod clix;
mod refcli;
mod libx;
mod model;
mod refc;
mod util;

use util::Ctx;

fn main() {
    let mut id = String::new();
    let mut thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    for a in std::env::args().skip(1) {
        match a.as_str() {
            "--thorough" => thorough = true,
            "--quick" => thorough = false,
            x => id = x.to_string(),
        }
    }
    util::quiet_panics();
    let ctx = Ctx::new(&id, thorough);
    let code = match id.as_str() {
        "C01" => c01::run(ctx),
        "C02" => c02::run(ctx),
        "C03" => c03::run(ctx),
        "C04" => c04::run(ctx),
        "C05" => c05::run(ctx),
        "C06" => c06::run(ctx),
        "C07" => c07::run(ctx),
        "C08" => c08::run(ctx),
        "C09" => c09::run(ctx),
        "C10" => c10::run(ctx),
        "C11" => c11::run(ctx),
        "C12" => c12::run(ctx),
        "C13" => c13::run(ctx),
        "C14" => c14::run(ctx),
        "C23" => c23::run(ctx),
        "C19" => c19::run(ctx),
        "C20" => c20::run(ctx),
        "C17" => c17::run(ctx),
        "C18" => c18::run(ctx),
        "C21" => c21::run(ctx),
        "C24" => c24::run(ctx),
        "C25" => c25::run(ctx),
        "C26" => c26::run(ctx),
        "C27" => c27::run(ctx),
        "C22" => c22::run(ctx),
        "C16" => c16::run(ctx),
        "C15" => c15::run(ctx),
        _ => {
            eprintln!("unknown property {:?}", id);
            2
        }
    };
    std::process::exit(code);
}
