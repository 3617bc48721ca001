//! C10: parsed instances reproduce the document.
use hx::*;
use walky::datastructures::{AdjacencyMatrix, Graph, NAMatrix, VecMatrix};
use walky::parser::TravellingSalesmanProblemInstance as T;

/// number as written, bits of the nearest double
const NUMBERS: [(&str, u64); 48] = [
    ("0", 0x0000000000000000),
    ("0.0", 0x0000000000000000),
    ("-0.0", 0x8000000000000000),
    ("1", 0x3ff0000000000000),
    ("1.0", 0x3ff0000000000000),
    ("3.000000000000000e+00", 0x4008000000000000),
    ("1.530000000000000e+02", 0x4063200000000000),
    ("1e0", 0x3ff0000000000000),
    ("1E2", 0x4059000000000000),
    ("1e+2", 0x4059000000000000),
    ("1e-7", 0x3e7ad7f29abcaf48),
    (".5", 0x3fe0000000000000),
    ("5.", 0x4014000000000000),
    ("0.1", 0x3fb999999999999a),
    ("0.2", 0x3fc999999999999a),
    ("0.3", 0x3fd3333333333333),
    ("1.1", 0x3ff199999999999a),
    ("123456789.123456789", 0x419d6f34547e6b75),
    ("16777217", 0x4170000010000000),
    ("9007199254740993", 0x4340000000000000),
    ("9007199254740992.999", 0x4340000000000000),
    ("1.00000001", 0x3ff0000002af31dc),
    ("3.3333333333333333", 0x400aaaaaaaaaaaab),
    ("0.30000000000000004", 0x3fd3333333333334),
    ("1e22", 0x4480f0cf064dd592),
    ("1e23", 0x44b52d02c7e14af6),
    ("8.5e22", 0x44b1ffdbf6b2b2eb),
    ("1e300", 0x7e37e43c8800759c),
    ("1.7976931348623157e308", 0x7fefffffffffffff),
    ("5e-324", 0x0000000000000001),
    ("2.2250738585072014e-308", 0x0010000000000000),
    ("2.2250738585072011e-308", 0x000fffffffffffff),
    ("4.9406564584124654e-324", 0x0000000000000001),
    ("1e-10", 0x3ddb7cdfd9d7bdbb),
    ("6.02214076e23", 0x44dfe185ca57c517),
    ("3.14159265358979323846264338327950288", 0x400921fb54442d18),
    ("2.718281828459045", 0x4005bf0a8b145769),
    ("0.1000000000000000055511151231257827", 0x3fb999999999999a),
    ("0.000000000000000000000000000001", 0x39b4484bfeebc2a0),
    ("100000000000000000000000", 0x44b52d02c7e14af6),
    ("007.50", 0x401e000000000000),
    ("+4.25", 0x4011000000000000),
    ("1000000000000000000", 0x43abc16d674ec800),
    ("1e18", 0x43abc16d674ec800),
    ("33554433.5", 0x418000000c000000),
    ("0.69999999999999996", 0x3fe6666666666666),
    ("1.2999999999999998", 0x3ff4cccccccccccc),
    ("4503599627370497.5", 0x4330000000000002),
];

fn judge(
    d: &str,
    n: usize,
    want: &dyn Fn(usize, usize) -> f64,
    meta: Option<(&str, &str, &str, u32, u32)>,
) -> Result<(), (&'static str, String)> {
    let t = match guard(|| T::parse_from_xml(d)) {
        Err(e) => return Err(("panic", e)),
        Ok(Err(e)) => return Err(("rejected", format!("{e:?}"))),
        Ok(Ok(t)) => t,
    };
    if let Some((a, b, c, p, i)) = meta {
        if t.name != a
            || t.source != b
            || t.description != c
            || t.double_precision != p
            || t.ignored_digits != i
        {
            return Err((
                "metadata",
                format!(
                    "got {:?} {:?} {:?} {} {}, written {a:?} {b:?} {c:?} {p} {i}",
                    t.name, t.source, t.description, t.double_precision, t.ignored_digits
                ),
            ));
        }
    }
    graph(&t.graph, n, want)
}
fn graph(
    g: &Graph,
    n: usize,
    want: &dyn Fn(usize, usize) -> f64,
) -> Result<(), (&'static str, String)> {
    if g.num_vertices() != n {
        return Err((
            "cities",
            format!("{} cities, {n} written", g.num_vertices()),
        ));
    }
    for i in 0..n {
        let mut seen = vec![false; n];
        for e in g[i].iter() {
            if e.to >= n || seen[e.to] {
                return Err(("edges", format!("edges of city {i}: {:?}", g[i])));
            }
            seen[e.to] = true;
            if e.cost.to_bits() != want(i, e.to).to_bits() {
                return Err((
                    "cost",
                    format!(
                        "edge {i}-{} costs {:?}, written {:?}",
                        e.to,
                        e.cost,
                        want(i, e.to)
                    ),
                ));
            }
        }
        if seen.iter().filter(|x| **x).count() != n - 1 || seen[i] {
            return Err(("edges", format!("edges of city {i}: {:?}", g[i])));
        }
    }
    let forms = guard(|| {
        let a: NAMatrix = g.into();
        let b: VecMatrix = g.clone().into();
        let c: NAMatrix = NAMatrix::from(&b);
        (a, b, c)
    });
    let (a, b, c) = forms.map_err(|e| ("convert-panic", e))?;
    if a.dim() != n || b.dim() != n || c.dim() != n {
        return Err((
            "dimension",
            format!(
                "matrix dimensions {} {} {}, {n} cities",
                a.dim(),
                b.dim(),
                c.dim()
            ),
        ));
    }
    for i in 0..n {
        for j in 0..n {
            if i == j {
                if a.get(i, i) != 0.0 {
                    return Err((
                        "diagonal",
                        format!("diagonal cost {} at city {i}", a.get(i, i)),
                    ));
                }
                continue;
            }
            let x = want(i, j);
            for (name, v) in [
                ("matrix", a.get(i, j)),
                ("vector matrix", b.get(i, j)),
                ("converted matrix", c.get(i, j)),
            ] {
                if v.to_bits() != x.to_bits() {
                    return Err((
                        "matrix-cost",
                        format!("{name}: cost {i}-{j} is {v:?}, written {x:?}"),
                    ));
                }
            }
        }
        if c.get(i, i).to_bits() != b.get(i, i).to_bits() {
            return Err((
                "convert-diagonal",
                format!("diagonal {} became {}", b.get(i, i), c.get(i, i)),
            ));
        }
    }
    Ok(())
}
fn run(
    c: &mut Ctx,
    tag: &str,
    d: &str,
    n: usize,
    want: &dyn Fn(usize, usize) -> f64,
    meta: Option<(&str, &str, &str, u32, u32)>,
) {
    c.begin(tag, &[]);
    mcrt::drv::distinct(mcrt::fx::bytes(13, d.as_bytes()));
    if let Err((k, m)) = judge(d, n, want, meta) {
        let short: String = d.chars().take(700).collect();
        c.fail(k, format!("{m}; document {short}"));
    }
}
fn show(k: usize, v: f64) -> String {
    match k {
        0 => format!("{v}"),
        1 => format!("{v:e}"),
        2 => format!("{v:.17e}"),
        3 => format!("{v:E}"),
        _ => format!("+{v:?}"),
    }
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    let mut p: Vec<usize> = (0..n).collect();
    let mut out = vec![p.clone()];
    while next_arrangement(&mut p) {
        out.push(p.clone());
    }
    out
}

fn main() {
    let mut s = Spec::new("C10", Level::Exploration);
    s.rule = "documents with every combination of number spellings (list with independently computed nearest doubles), every \
              order of the edges of every city for up to four cities, every whitespace / comment / field-order / quoting \
              variant, metadata texts, and sizes up to 130 cities; costs, diagonals, metadata and matrix conversions compared \
              bit by bit; distinct: different documents"
        .into();
    let t = mcrt::drv::tier() == Tier::Thorough;
    s.unit("numbers", |c| {
        for (txt, bits) in NUMBERS {
            let v = f64::from_bits(bits);
            for (txt2, bits2) in NUMBERS {
                let v2 = f64::from_bits(bits2);
                let w = [v, v2, v];
                let mut d = doc_of(3, &[0.0; 3], |_| String::new());
                for i in 0..3 {
                    for e in d.rows[i].iter_mut() {
                        let j: usize = e.1.parse().unwrap();
                        e.0 = if tri(3, i, j) == 1 {
                            txt2.into()
                        } else {
                            txt.into()
                        };
                    }
                }
                run(
                    c,
                    "number spellings",
                    &d.text(),
                    3,
                    &|i, j| wt(3, &w, i, j),
                    None,
                );
            }
        }
        c.sample(|| "all pairs of 48 number spellings".into());
    });
    s.unit("spellings", |c| {
        // the same value spelt differently at the two ends of an edge
        for k in 0..240 {
            let n = 3 + k % 3;
            let w: Vec<f64> = residue_k(n, k).iter().map(|x| x / 3.0 + 1e-3).collect();
            for a in 0..5 {
                for b in 0..5 {
                    let mut d = doc_of(n, &w, |_| String::new());
                    for i in 0..n {
                        for e in d.rows[i].iter_mut() {
                            let j: usize = e.1.parse().unwrap();
                            e.0 = show(if i < j { a } else { b }, wt(n, &w, i, j));
                        }
                    }
                    run(
                        c,
                        "spelt differently at the two ends",
                        &d.text(),
                        n,
                        &|i, j| wt(n, &w, i, j),
                        None,
                    );
                }
            }
        }
    });
    for n in [2usize, 3, 4] {
        s.unit(format!("orders-{n}"), move |c| {
            let w: Vec<f64> = (0..edges(n)).map(|k| 1.0 + k as f64 * 1.25).collect();
            let ps = perms(n - 1);
            let mut idx = vec![0usize; n];
            loop {
                let mut d = doc_of(n, &w, |v| v.to_string());
                for i in 0..n {
                    let r = d.rows[i].clone();
                    d.rows[i] = ps[idx[i]].iter().map(|&k| r[k].clone()).collect();
                }
                run(
                    c,
                    "orders of edges",
                    &d.text(),
                    n,
                    &|i, j| wt(n, &w, i, j),
                    None,
                );
                let mut k = 0;
                while k < n {
                    idx[k] += 1;
                    if idx[k] < ps.len() {
                        break;
                    }
                    idx[k] = 0;
                    k += 1;
                }
                if k == n {
                    break;
                }
            }
        });
    }
    s.unit("layout", |c| {
        let n = 4;
        let w: Vec<f64> = (0..edges(n)).map(|k| 0.1 + k as f64 * 0.3).collect();
        let base = doc_of(n, &w, |v| v.to_string());
        let heads = ["", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "<?xml version=\"1.0\"?>\n<!-- head -->\n", "\n\n", "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\" ?>\n<!DOCTYPE travellingSalesmanProblemInstance SYSTEM \"x.dtd\">\n"];
        let gaps = ["", " ", "\n", "\r\n\t  ", "\n    ", "<!-- gap -->", "\n<!-- <edge cost=\"9\">0</edge> -->\n"];
        let tails = ["", "\n", "<!-- end -->", "\n\n "];
        for h in heads {
            for g in gaps {
                for e in tails {
                    for (qn, q) in ["double", "single", "spaced", "extra"].iter().enumerate() {
                        let mut x = format!("{h}{}{e}", base.text_ws(g));
                        if qn > 0 && g.contains("edge") {
                            continue;
                        }
                        match *q {
                            "single" => x = x.replace("cost=\"", "cost='").replace("\">", "'>").replace("\"x.dtd'>", "\"x.dtd\">"),
                            "spaced" => x = x.replace("<edge cost=", "<edge  cost = ").replace("</edge>", "</edge >").replace("<vertex>", "<vertex >"),
                            "extra" => x = x.replace("<edge ", "<edge id=\"7\" "),
                            _ => {}
                        }
                        // declarations are only allowed once and first
                        run(c, "layout", &x, n, &|i, j| wt(n, &w, i, j), Some(("inst", "src", "some text", 15, 0)));
                        let y = x.replace(">1</edge", ">  1\n</edge");
                        run(c, "layout, space around targets", &y, n, &|i, j| wt(n, &w, i, j), None);
                        let z = x.replace(">2</edge", "><!-- t -->2</edge").replace(">3</edge", "><![CDATA[3]]></edge");
                        if !g.contains("edge") {
                            run(c, "layout, comments and CDATA at targets", &z, n, &|i, j| wt(n, &w, i, j), None);
                        }
                    }
                }
            }
        }
        c.sample(|| "all combinations of 5 heads, 7 gaps, 4 tails, 4 attribute styles, 3 target styles".into());
    });
    s.unit("fields", |c| {
        // every order of the fields, several texts
        let n = 3;
        let w = [2.5, 0.125, 7.0];
        let d = doc_of(n, &w, |v| v.to_string());
        let texts = [
            ("a", "a"),
            ("burma 14", "burma 14"),
            ("a&amp;b &lt;c&gt;", "a&b <c>"),
            ("&#228;&#x3b1;", "\u{e4}\u{3b1}"),
            ("1.5", "1.5"),
            ("\u{e4}\u{1F600}", "\u{e4}\u{1F600}"),
            ("&quot;q&apos;", "\"q'"),
            ("x\ny", "x\ny"),
        ];
        let ints = [0u32, 1, 15, 255, 65536, u32::MAX];
        for (k, p) in perms(6).into_iter().enumerate() {
            for (ti, (raw, txt)) in texts.iter().enumerate() {
                let a = ints[(k + ti) % 6];
                let b = ints[(k / 6 + 2 * ti) % 6];
                let f = [
                    format!("<name>{raw}</name>"),
                    format!("<source>{raw}-s</source>"),
                    format!("<description>d-{raw}</description>"),
                    format!("<doublePrecision>{a}</doublePrecision>"),
                    format!("<ignoredDigits>{b}</ignoredDigits>"),
                    d.graph(""),
                ];
                let body: String = p.iter().map(|&i| f[i].clone()).collect();
                let x = format!(
                    "<travellingSalesmanProblemInstance>{body}</travellingSalesmanProblemInstance>"
                );
                let (s1, s2) = (format!("{txt}-s"), format!("d-{txt}"));
                run(
                    c,
                    "field orders and texts",
                    &x,
                    n,
                    &|i, j| wt(n, &w, i, j),
                    Some((txt, &s1, &s2, a, b)),
                );
            }
        }
    });
    s.unit("sizes", move |c| {
        for n in (2..=if t { 120usize } else { 40 }).chain([63, 64, 65, 100, 127, 128, 129, 130, 255, 256, 257, 300]) {
            for k in 0..6 {
                let w: Vec<f64> = residue_k(n, k)
                    .iter()
                    .enumerate()
                    .map(|(i, x)| x * 1.7 + i as f64 / 9.0)
                    .collect();
                let d = doc_of(n, &w, |v| show(k % 5, v));
                run(
                    c,
                    "sizes",
                    &d.text_ws("\n"),
                    n,
                    &|i, j| wt(n, &w, i, j),
                    None,
                );
            }
        }
    });
    s.unit("weightings", move |c| {
        for a in [INT4, FRAC4, TINY, HUGE, BIGM, NEAR] {
            for n in [2usize, 3, 4] {
                weightings(n, a.v, 0, 1, |w| {
                    let d = doc_of(n, w, |v| v.to_string());
                    run(
                        c,
                        "all weightings",
                        &d.text(),
                        n,
                        &|i, j| wt(n, w, i, j),
                        None,
                    );
                    // graphs built without a document
                    if let Err((k, m)) = graph(&hx::graph(n, w), n, &|i, j| wt(n, w, i, j)) {
                        c.fail(k, m);
                    }
                    let v = vm(n, w);
                    let x = NAMatrix::from(&v);
                    for i in 0..n {
                        for j in 0..n {
                            if x.get(i, j).to_bits() != v.get(i, j).to_bits() {
                                c.fail(
                                    "convert",
                                    format!(
                                        "conversion changed {} to {}",
                                        v.get(i, j),
                                        x.get(i, j)
                                    ),
                                );
                            }
                        }
                    }
                });
            }
        }
    });
    mcrt::drv::main(s)
}
