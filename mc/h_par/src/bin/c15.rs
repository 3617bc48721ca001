//! C15: the data-parallel modes under every bounded schedule and work split, with happens-before race detection,
//! compared with the sequential modes on the same random draws.
use hx::*;

fn main() {
    let mut s = Spec::new("C15", Level::ModelChecking);
    s.unit_cpu_s = 200;
    s.rule = "instances over small alphabets, structured ones and residue families; each data-parallel mode in simulated \
              pools of two to four threads, every split of its work within the steal budget, stolen tasks interleaved with \
              the rest at every atomic operation within the pre-emption budget; all plain and atomic memory accesses of \
              walky, rayon, nalgebra and the standard library checked for happens-before order by vector clocks; results \
              judged on their own and compared with the sequential mode on the same random draws; with the deciding city placed at every city of larger instances"
        .into();
    s.assumptions = vec![
        "costs finite; equality of sums up to relative 1e-9".into(),
        "sequentially consistent values for atomics; memory orders count for happens-before".into(),
    ];
    h_par::modes::units(&mut s, h_par::modes::ALL);
    mcrt::drv::main(s)
}
