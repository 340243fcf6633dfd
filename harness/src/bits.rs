//! The bit reader: generated histories, and recorded traces.
use crate::report::*;
use crate::symbols::u;
use crate::tables::*;
use bardecoder::util::qr::QRError;
use bardecoder::util::Chomp;
use serde_json::{json, Value};

/// one request; (granted, value)
fn request(c: &mut Chomp, op: &str, n: u8) -> Result<(u64, u64), String> {
    let marker = QRError { msg: format!("marker {}", n) };
    let r = guarded(|| match op {
        "chomp" => Ok(c.chomp(n).map(u64::from)),
        "chomp_or" => match c.chomp_or(n, marker.clone()) {
            Ok(v) => Ok(Some(u64::from(v))),
            Err(e) if e == marker => Ok(None),
            Err(e) => Err(format!("a different error is returned: {}", e)),
        },
        _ => match c.chomp_or_u16(n, marker.clone()) {
            Ok(v) => Ok(Some(u64::from(v))),
            Err(e) if e == marker => Ok(None),
            Err(e) => Err(format!("a different error is returned: {}", e)),
        },
    })??;
    Ok(match r {
        Some(v) => (1, v),
        None => (0, 0),
    })
}

/// harness bits INPUT OUT
pub fn replay(input: &str, out: &str) {
    let cases = read_cases(input);
    let rep = Report::default();
    let distinct: std::collections::HashSet<String> = cases.iter().map(|c| c.to_string()).collect();
    parallel(cases.len(), out, &rep, 60, |i| {
        let case = &cases[i];
        let mut c = Chomp::new(bytes(&case["data"]));
        rep.eval();
        for (k, e) in case["ev"].as_array().unwrap().iter().enumerate() {
            let (op, n) = (e[0].as_str().unwrap(), u(&e[1]) as u8);
            let want = (e[2].as_u64().unwrap(), e[3].as_u64().unwrap());
            match request(&mut c, op, n) {
                Ok(got) if got == want => {}
                Ok(got) => {
                    rep.fail("bits", format!("request {} ({} of {} bits): got {:?}, expected {:?}", k + 1, op, n, got, want), case.clone());
                    break;
                }
                Err(p) => {
                    rep.fail("bits", format!("request {} ({} of {} bits): {}", k + 1, op, n, p), case.clone());
                    break;
                }
            }
        }
        if i % 9973 == 3 {
            rep.sample(|| case.clone());
        }
    });
    rep.count("distinct", distinct.len() as u64);
    rep.write(out);
}

/// harness bits-trace COUNT OPS TRACE: random histories on random strings, recorded
pub fn record(count: usize, ops: usize, path: &str) {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut r = Rng::new(seed);
    let mut lines = String::new();
    // some long ones as well, read to the end: more bits than 16-bit counters hold
    for k in 0..count + 4 {
        let long = k >= count;
        let len = if long { [2956, 8190, 8193, 9500][k - count] } else { r.below(120) };
        let data: Vec<u8> = (0..len).map(|_| r.next() as u8).collect();
        let mut c = Chomp::new(data.clone());
        let mut ev: Vec<Value> = vec![];
        let ops = if long { len * 8 / 13 + 200 } else { ops };
        for _ in 0..ops {
            let op = if long && r.below(20) > 0 { "chomp_or_u16" } else { ["chomp", "chomp_or", "chomp_or_u16"][r.below(3)] };
            let n = match r.below(if long { 64 } else { 8 }) {
                0 => r.below(256),
                _ if long => 12 + r.below(6),
                _ => r.below(19),
            };
            match request(&mut c, op, n as u8) {
                Ok((g, v)) => ev.push(json!([op, n, g, v])),
                Err(_) => {
                    ev.push(json!([op, n, 2, 0])); // a panic is no behaviour of the specification
                    break;
                }
            }
        }
        lines.push_str(&json!({"data": data, "ev": ev}).to_string());
        lines.push('\n');
    }
    std::fs::write(path, lines).expect("write trace");
}
