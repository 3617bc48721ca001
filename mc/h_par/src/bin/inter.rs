//! The part of C04, C05, C07, C08 and C18 about schedules: the multi-threaded modes in the instrumented build.
use h_par::modes::Mode::*;
use hx::*;

fn main() {
    let p = std::env::var("MC_PROPERTY").expect("MC_PROPERTY");
    let (id, modes): (&'static str, &'static [_]) = match p.as_str() {
        "C04" => ("C04", &[Nearest]),
        "C05" => ("C05", &[Christofides]),
        "C07" => ("C07", &[Trees]),
        "C08" => ("C08", &[OneTrees, Trees]),
        "C18" => ("C18", &[Points]),
        _ => panic!("no part for {p}"),
    };
    let mut s = Spec::new(id, Level::ModelChecking);
    s.unit_cpu_s = 200;
    h_par::modes::units(&mut s, modes);
    mcrt::drv::main(s)
}
