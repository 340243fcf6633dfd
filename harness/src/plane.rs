//! The value types: points and offsets, module matrices, errors.
use crate::report::*;
use crate::symbols::u;
use crate::tables::*;
use bardecoder::util::qr::{QRData, QRError};
use bardecoder::util::{Delta, Point};
use serde_json::Value;

// integers of the specification are 64ths here
const UNIT: f64 = 64.0;
fn pair(v: &Value) -> (f64, f64) {
    (v[0].as_i64().unwrap() as f64, v[1].as_i64().unwrap() as f64)
}
fn program(case: &Value) -> Result<(), String> {
    let mut p: Vec<Point> = (0..3).map(|i| pair(&case["start"]["p"][i])).map(|q| Point { x: q.0 / UNIT, y: q.1 / UNIT }).collect();
    let mut d: Vec<Delta> = (0..3).map(|i| pair(&case["start"]["d"][i])).map(|q| Delta { dx: q.0 / UNIT, dy: q.1 / UNIT }).collect();
    for (n, e) in case["ev"].as_array().unwrap().iter().enumerate() {
        let (op, i, k) = (e[0][0].as_str().unwrap(), u(&e[0][1]) - 1, u(&e[0][3]) - 1);
        let s = e[0][2].as_i64().unwrap() as f64;
        let j = (s as usize).wrapping_sub(1);
        match op {
            "p+d" => p[k] = p[i] + d[j],
            "p-d" => p[k] = p[i] - d[j],
            "p-p" => d[k] = p[i] - p[j],
            "d+d" => d[k] = d[i] + d[j],
            "d-d" => d[k] = d[i] - d[j],
            "d*s" => d[k] = d[i] * s,
            "s*d" => d[k] = s * d[i],
            "d/s" => d[k] = d[i] / s,
            _ => panic!("unknown operation {}", op),
        }
        for r in 0..3 {
            let (wp, wd) = (pair(&e[1]["p"][r]), pair(&e[1]["d"][r]));
            if (p[r].x * UNIT, p[r].y * UNIT) != wp || (d[r].dx * UNIT, d[r].dy * UNIT) != wd {
                return Err(format!("after step {} ({}): register {} holds {:?} and {:?}, expected {:?} and {:?} 64ths", n + 1, op, r + 1, p[r], d[r], wp, wd));
            }
        }
    }
    Ok(())
}
fn matrix(case: &Value) -> Result<(), String> {
    let (v, side) = (u(&case["v"]) as u32, u(&case["side"]) as u32);
    let data = bytes(&case["data"]);
    let m = QRData::new(data.clone(), v);
    if m.version != v || m.side != side || m.data != data {
        return Err(format!("version {} side {} and {} pixels", m.version, m.side, m.data.len()));
    }
    for y in 0..side {
        for x in 0..side {
            let (got, want) = (m[[x, y]], u(&case["rows"][y as usize][x as usize]) as u8);
            if got != want {
                return Err(format!("version {}: module in column {} of row {} is {}, expected {}", v, x, y, got, want));
            }
        }
    }
    Ok(())
}
fn error(case: &Value) -> Result<(), String> {
    let e = |k: &str| QRError { msg: case[k].as_str().unwrap().to_string() };
    let (a, b) = (e("a"), e("b"));
    let want = case["equal"].as_bool().unwrap();
    if (a == b) != want || (a.clone() == b) != want || (a != b) == want {
        return Err(format!("{:?} and {:?} compare as {}", a, b, a == b));
    }
    let boxed: Box<dyn std::error::Error + Send + Sync> = Box::new(a.clone());
    let back = boxed.downcast_ref::<QRError>();
    if !a.to_string().ends_with(&a.msg) || boxed.to_string() != a.to_string() || back != Some(&a) || (a.to_string() == b.to_string()) != want {
        return Err(format!("{:?} shows as {:?}", a, a.to_string()));
    }
    Ok(())
}

/// harness plane INPUT OUT
pub fn run(input: &str, out: &str) {
    let cases = read_cases(input);
    let rep = Report::default();
    let distinct: std::collections::HashSet<String> = cases.iter().map(|c| c.to_string()).collect();
    parallel(cases.len(), out, &rep, 60, |i| {
        let case = &cases[i];
        rep.eval();
        let kind = case["kind"].as_str().unwrap();
        let r = guarded(|| match kind {
            "program" => program(case),
            "matrix" => matrix(case),
            _ => error(case),
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => rep.fail(kind, e, case.clone()),
            Err(p) => rep.fail(kind, format!("panic: {}", p), case.clone()),
        }
        if i % 499 == 3 && kind != "matrix" {
            rep.sample(|| case.clone());
        }
    });
    rep.count("distinct", distinct.len() as u64);
    rep.write(out);
}
