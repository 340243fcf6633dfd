//! Preparation of gray pictures against the pictures Binarize.tla computes.
use crate::report::*;
use crate::symbols::u;
use crate::tables::*;
use bardecoder::prepare::{BlockedMean, Prepare};
use image::{Rgba, RgbaImage};
use std::sync::Mutex;

/// harness binarize INPUT OUT
pub fn run(input: &str, out: &str) {
    let cases = read_cases(input);
    let rep = Report::default();
    // [as specified by the tests, as documented]: one of the two must fit every case
    let misses: [Mutex<Vec<(usize, String)>>; 2] = Default::default();
    parallel(cases.len(), out, &rep, 60, |i| {
        let c = &cases[i];
        let (w, h) = (u(&c["w"]) as u32, u(&c["h"]) as u32);
        let g = bytes(&c["gray"]);
        let img = RgbaImage::from_fn(w, h, |x, y| {
            let v = g[(y * w + x) as usize];
            Rgba([v, v, v, 255])
        });
        rep.eval();
        match guarded(|| BlockedMean::new(u(&c["bs"]) as u32, u(&c["ms"]) as u32).prepare(&img)) {
            Err(p) => rep.fail("panic", format!("{}: {}", c["name"], p), c.clone()),
            Ok(o) => {
                if o.dimensions() != (w, h) {
                    rep.fail("size", format!("{}: {}x{} prepared as {:?}", c["name"], w, h, o.dimensions()), c.clone());
                    return;
                }
                let o = o.into_raw();
                if let Some(v) = o.iter().find(|v| **v != 0 && **v != 255) {
                    rep.fail("colour", format!("{}: value {} in the prepared picture", c["name"], v), c.clone());
                    return;
                }
                let mut whites = 0;
                for (k, key) in ["want", "documented"].iter().enumerate() {
                    let want = bytes(&c[*key]);
                    whites += want.iter().filter(|x| **x == 1).count();
                    let bad: Vec<usize> = (0..o.len()).filter(|j| (o[*j] == 255) != (want[*j] == 1)).collect();
                    if !bad.is_empty() {
                        let (x, y) = (bad[0] as u32 % w, bad[0] as u32 / w);
                        misses[k].lock().unwrap().push((
                            i,
                            format!("{}: {}x{} block size {} mean size {}: {} pixels, the first at {} {}: gray {} prepared as {}", c["name"], w, h, c["bs"], c["ms"], bad.len(), x, y, g[bad[0]], o[bad[0]]),
                        ));
                    }
                }
                if whites > 0 && whites < 2 * o.len() {
                    rep.count("distinct", 1);
                }
                rep.count("pixels", o.len() as u64);
            }
        }
        if i % 97 == 3 {
            rep.sample(|| c.clone());
        }
    });
    let [a, b] = [misses[0].lock().unwrap().clone(), misses[1].lock().unwrap().clone()];
    if !a.is_empty() && !b.is_empty() {
        for (i, d) in a.iter().take(MAX_FAILURES) {
            rep.fail("pixel", d.clone(), cases[*i].clone());
        }
    }
    rep.count("cases_off_the_tested_window", a.len() as u64);
    rep.count("cases_off_the_documented_window", b.len() as u64);
    rep.write(out);
}
