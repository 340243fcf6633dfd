//! Lone finder patterns (GenCorners.tla): which of them are taken for the corners of a code.
use crate::report::*;
use crate::scene::Texts;
use crate::symbols::u;
use crate::tables::*;
use bardecoder::detect::{Detect, LineScan, Location};
use bardecoder::prepare::{BlockedMean, Prepare};
use bardecoder::util::qr::QRLocation;
use bardecoder::util::Point;
use serde_json::{json, Value};

/// harness corners TABLES TEXTS INPUT OUT
pub fn run(t: &Tables, texts: &str, input: &str, out: &str) {
    let texts = Texts::load(texts);
    let cases: Vec<Value> = read_cases(input).into_iter().filter(|c| c.get("finders").is_some()).collect();
    let rep = Report::default();
    parallel(cases.len(), out, &rep, 60, |i| {
        let c = &cases[i];
        let finders: Vec<(f64, f64, f64)> = c["finders"].as_array().unwrap().iter().map(|f| {
            let f = ints(f);
            let s = f[2] as f64;
            (f[0] as f64 + 3.5 * s, f[1] as f64 + 3.5 * s, s)
        }).collect();
        let ops: Vec<Value> = c["finders"].as_array().unwrap().iter().map(|f| json!(["finder", f[0], f[1], f[2], f[2], 0])).collect();
        let p = crate::paint::paint(t, &texts, &json!({"w": c["w"], "h": c["h"], "ground": 255, "ops": ops}));
        let want = c["expected"].as_array().unwrap();
        // which of the patterns a reported corner is
        let which = |q: &Point| finders.iter().position(|f| ((q.x - f.0).powi(2) + (q.y - f.1).powi(2)).sqrt() <= 0.75 + 0.5 * f.2);
        let describe = |l: &QRLocation| format!("{:?}", l);
        for (how, img) in [("black and white", p.luma()), ("prepared", BlockedMean::new(5, 7).prepare(&p.rgba()))] {
            rep.eval();
            let found: Vec<QRLocation> = match guarded(|| LineScan::new().detect(&img)) {
                Err(e) => {
                    rep.fail("panic", format!("{}: {}", c["name"], e), c.clone());
                    continue;
                }
                Ok(l) => l.into_iter().map(|Location::QR(l)| l).collect(),
            };
            let mut times = vec![0; want.len()];
            for l in &found {
                let k = match (which(&l.top_left), which(&l.top_right), which(&l.bottom_left)) {
                    (Some(a), Some(b), Some(d)) => want.iter().position(|e| u(&e["corner"]) == a + 1 && u(&e["right"]) == b + 1 && u(&e["below"]) == d + 1),
                    _ => {
                        rep.fail("elsewhere", format!("{} {}: {} has a corner where there is no finder pattern", c["name"], how, describe(l)), c.clone());
                        continue;
                    }
                };
                match k {
                    None => rep.fail("not a code", format!("{} {}: {} does not lie like a code", c["name"], how, describe(l)), c.clone()),
                    Some(k) => {
                        times[k] += 1;
                        if !want[k]["versions"].as_array().unwrap().iter().any(|v| u(v) as u32 == l.version) {
                            rep.fail("version", format!("{} {}: {} should have a version in {}", c["name"], how, describe(l), want[k]["versions"]), c.clone());
                        }
                        let sizes: Vec<f64> = ["corner", "right", "below"].iter().map(|n| finders[u(&want[k][*n]) - 1].2).collect();
                        if !sizes.iter().any(|s| (l.module_size / s - 1.0).abs() <= 0.1) {
                            rep.fail("size", format!("{} {}: {} for modules of {:?}", c["name"], how, describe(l), sizes), c.clone());
                        }
                    }
                }
            }
            for (k, e) in want.iter().enumerate() {
                if times[k] > 1 {
                    rep.fail("twice", format!("{} {}: patterns {} {} {} reported {} times", c["name"], how, e["corner"], e["right"], e["below"], times[k]), c.clone());
                }
                if times[k] == 0 && e["must"].as_bool().unwrap() {
                    rep.fail("unseen", format!("{} {}: patterns {} {} {} lie like a code but are not reported", c["name"], how, e["corner"], e["right"], e["below"]), c.clone());
                }
                rep.count("codes_to_report", u64::from(e["must"].as_bool().unwrap()));
                rep.count("codes_near_a_threshold", u64::from(!e["must"].as_bool().unwrap()));
                rep.count("codes_near_a_threshold_reported", u64::from(!e["must"].as_bool().unwrap() && times[k] > 0));
            }
            rep.count("pictures_without_a_code", u64::from(want.is_empty()));
        }
        if i % 297 == 3 {
            rep.sample(|| c.clone());
        }
    });
    rep.count("distinct", cases.iter().map(|c| c["finders"].to_string()).collect::<std::collections::HashSet<_>>().len() as u64);
    rep.write(out);
}
