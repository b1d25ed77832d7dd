mod common;
mod xl;
mod c01;
mod c02;
mod fmt;
mod model;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c09;
mod c10;
mod c12;
mod c13;
mod c08;
mod scene;
mod c17;
mod c11;
mod c27;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c18;
mod c14;
mod c15;
mod c16;
use common::*;

fn main() {
    quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let prop = a.get(1).cloned().unwrap_or_default();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let only = std::env::var("VP_ONLY").ok();
    let mut run = Run::new(seed, thorough, only);
    match prop.as_str() {
        "C01" => c01::run(&mut run),
        "C02" => c02::run(&mut run),
        "C03" => c03::run(&mut run),
        "C04" => c04::run(&mut run),
        "C05" => c05::run(&mut run),
        "C06" => c06::run(&mut run),
        "C07" => c07::run(&mut run),
        "C10" => c10::run(&mut run),
        "C12" => c12::run(&mut run, false),
        "C13" => c13::run(&mut run),
        "C26" => c12::run(&mut run, true),
        "C09" => c09::run(&mut run),
        "C14" => c14::run(&mut run),
        "C15" => c15::run(&mut run),
        "C16" => c16::run(&mut run),
        "C18" => c18::run(&mut run),
        "C20" => c20::run(&mut run),
        "C21" => c21::run(&mut run),
        "C22" => c22::run(&mut run),
        "C23" => c23::run(&mut run),
        "C24" => c24::run(&mut run),
        "C25" => c25::run(&mut run),
        "C19" => c19::run(&mut run),
        "C27" => c27::run(&mut run),
        "C11" => c11::run(&mut run),
        "C17" => c17::run(&mut run),
        "C08" => c08::run(&mut run),
        _ => { eprintln!("unknown property {prop}"); std::process::exit(2) }
    }
    let mut o = String::from("{");
    o += &format!("\"property\":{},\"evaluations\":{},\"distinct\":{},", jstr(&prop), run.evaluations, run.distinct());
    o += &format!("\"samples\":[{}],", run.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    o += &format!("\"exhaustive\":[{}],", run.exhaustive.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    o += &format!("\"violations\":[{}]}}", run.violations.iter().map(|v| format!("{{\"key\":{},\"input\":{},\"detail\":{}}}", jstr(&v.key), jstr(&v.input), jstr(&v.detail))).collect::<Vec<_>>().join(","));
    println!("{o}");
}
