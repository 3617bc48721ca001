//! C18: distance matrices from points.
use hx::*;
use mcrt::choice::{explore, Kind, Limits};
use walky::datastructures::NAMatrix;

fn check(c: &mut Ctx, p: &[[f64; 2]], steals: u32) {
    c.begin("points", &p.iter().flatten().copied().collect::<Vec<_>>());
    mcrt::drv::distinct(
        p.iter()
            .flatten()
            .fold(p.len() as u64, |h, x| mcrt::fx::mix(h, x.to_bits())),
    );
    let seq = match guard(|| NAMatrix::from_points(p)) {
        Err(e) => return c.fail("seq-panic", e),
        Ok(m) => m,
    };
    if let Err(e) = guard(|| judge_points(p, &seq, &seq)).and_then(|x| x) {
        return c.fail("seq", format!("sequential: {e}"));
    }
    let e = explore(Limits::all().with(Kind::Steal, steals), || {
        let m = guard(|| NAMatrix::par_from_points(p))?;
        judge_points(p, &seq, &m).map_err(|e| format!("multi-threaded: {e}"))
    });
    c.explored("par", &e);
}

fn main() {
    let mut s = Spec::new("C18", Level::ModelChecking);
    s.rule = "every list of up to five points (six in thorough runs) over a set of positions with coinciding, collinear, \
              negative and fractional coordinates, longer structured lists; the multi-threaded constructor under every way \
              (within the steal budget) a four-thread pool splits its work; in a second, \
              instrumented part the pool's tasks are interleaved at every atomic operation within a preemption budget, \
              and all memory accesses are checked for happens-before order"
        .into();
    s.assumptions = vec!["coordinates up to 1e4 in magnitude: beyond that rounding exceeds the metric check's allowance".into()];
    let t = mcrt::drv::tier() == Tier::Thorough;
    const P: [[f64; 2]; 8] = [
        [0.0, 0.0],
        [3.0, 4.0],
        [-3.0, 4.0],
        [0.1, -0.7],
        [6.0, 8.0],
        [1e4, -1e4],
        [1e-9, 0.0],
        [2.5, 0.0],
    ];
    for len in 0..=if t { 6usize } else { 5 } {
        let total = 8u64.pow(len as u32);
        let parts = total.div_ceil(4096).max(1);
        for part in 0..parts {
            s.unit(format!("lists-{len}-{part}"), move |c| {
                for k in total * part / parts..total * (part + 1) / parts {
                    let mut x = k;
                    let p: Vec<[f64; 2]> = (0..len)
                        .map(|_| {
                            let q = P[(x % 8) as usize];
                            x /= 8;
                            q
                        })
                        .collect();
                    check(c, &p, if len <= 3 { 4 } else { 1 });
                }
                c.sample(|| format!("lists of {len} positions, part {part} of {parts}"));
            });
        }
    }
    for n in (6..=24usize).chain([31, 32, 33, 50, 63, 64, 65, 100, 128, 130, 255, 256, 257, 300]) {
        s.unit(format!("long-{n}"), move |c| {
            for k in (0..4usize).filter(|&k| n <= 130 || k == 3) {
                let p: Vec<[f64; 2]> = (0..n)
                    .map(|i| match k {
                        0 => [i as f64 / 7.0, i as f64 / 3.0],
                        1 => [
                            ((i * 37 + 11) % 101) as f64 - 50.0,
                            ((i * i * 53) % 97) as f64 / 5.0,
                        ],
                        2 => [(i / 2) as f64, 0.3],
                        _ => [
                            ((i * 7919) % 10007) as f64,
                            ((i * 104729) % 9973) as f64 * -1.0,
                        ],
                    })
                    .collect();
                check(c, &p, if n <= 12 { 2 } else { 1 });
            }
        });
    }
    mcrt::drv::main(s)
}
