//! Writes the matrix or picture of a case to a file one can look at.
use crate::report::*;
use crate::scene;
use crate::symbols::{case_matrix, u};
use crate::tables::*;

/// harness dump-matrix TABLES CASE OUT: version, then a line of 0 and 1 per row
pub fn matrix(t: &Tables, case: &str, out: &str) {
    let c = &read_cases(case)[0];
    let m = case_matrix(t, c, u(&c["mask"]));
    let mut s = format!("{}\n", m.version);
    for y in 0..m.side {
        for x in 0..m.side {
            s.push(if m.at(x, y) == 1 { '1' } else { '0' });
        }
        s.push('\n');
    }
    std::fs::write(out, s).expect("write");
}

/// harness dump-scene TABLES TEXTS CASE OUT: a PGM picture and the location of the first code, and the texts in it on standard output
pub fn picture(t: &Tables, texts: &str, case: &str, out: &str) {
    let s = scene::load(t, &scene::Texts::load(texts), &read_cases(case)[0]);
    let mut d = format!("P5\n{} {}\n255\n", s.w, s.h).into_bytes();
    d.extend(&s.gray);
    std::fs::write(out, d).expect("write");
    let c = &s.codes[0];
    let mut loc = format!("{} {} {} {} {} {} {} {}\n", c.version, c.module, c.tl.0, c.tl.1, c.tr.0, c.tr.1, c.bl.0, c.bl.1);
    for y in 0..c.matrix.side {
        for x in 0..c.matrix.side {
            loc.push(if c.matrix.at(x, y) == 1 { '1' } else { '0' });
        }
        loc.push('\n');
    }
    std::fs::write(format!("{}.location", out), loc).expect("write");
    for c in s.codes.iter().filter(|c| c.readable) {
        println!("{}", String::from_utf8_lossy(&c.text));
    }
}
