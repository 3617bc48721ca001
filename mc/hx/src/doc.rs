//! TSPLIB-XML documents.
use crate::oracle::tri;

/// directed edge as written: cost text, target text
pub type Cell = (String, String);
pub struct Doc {
    pub name: String,
    pub source: String,
    pub description: String,
    pub precision: String,
    pub digits: String,
    pub rows: Vec<Vec<Cell>>,
}
impl Doc {
    pub fn new(rows: Vec<Vec<Cell>>) -> Self {
        Doc {
            name: "inst".into(),
            source: "src".into(),
            description: "some text".into(),
            precision: "15".into(),
            digits: "0".into(),
            rows,
        }
    }
    pub fn graph(&self, ws: &str) -> String {
        let mut g = String::from("<graph>");
        for r in &self.rows {
            g.push_str(ws);
            g.push_str("<vertex>");
            for (c, t) in r {
                g.push_str(ws);
                g.push_str("<edge cost=\"");
                g.push_str(c);
                g.push_str("\">");
                g.push_str(t);
                g.push_str("</edge>");
            }
            g.push_str(ws);
            g.push_str("</vertex>");
        }
        g.push_str(ws);
        g.push_str("</graph>");
        g
    }
    pub fn text(&self) -> String {
        self.text_ws("")
    }
    pub fn text_ws(&self, ws: &str) -> String {
        format!(
            "<travellingSalesmanProblemInstance>{ws}<name>{}</name>{ws}<source>{}</source>{ws}<description>{}</description>{ws}<doublePrecision>{}</doublePrecision>{ws}<ignoredDigits>{}</ignoredDigits>{ws}{}{ws}</travellingSalesmanProblemInstance>",
            self.name, self.source, self.description, self.precision, self.digits, self.graph(ws)
        )
    }
}
/// complete symmetric document, cost text from the instance
pub fn doc_of(n: usize, w: &[f64], show: impl Fn(f64) -> String) -> Doc {
    Doc::new(
        (0..n)
            .map(|i| {
                (0..n)
                    .filter(|&j| j != i)
                    .map(|j| (show(w[tri(n, i, j)]), j.to_string()))
                    .collect()
            })
            .collect(),
    )
}
/// numeric form of the rows and whether they are a complete, simple, undirected graph
pub fn valid_rows(rows: &[Vec<(f64, usize)>]) -> bool {
    let n = rows.len();
    for (i, r) in rows.iter().enumerate() {
        if r.len() != n - 1 {
            return false;
        }
        let mut seen = vec![false; n];
        for &(c, t) in r {
            if t >= n || t == i || seen[t] {
                return false;
            }
            seen[t] = true;
            // the cost written at the other end
            let Some(o) = rows[t].iter().find(|e| e.1 == i) else {
                return false;
            };
            if o.0 != c {
                return false;
            }
        }
    }
    true
}
