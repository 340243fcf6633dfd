//! Damage sampled in the harness: every codeword hit at least once, and random plans of which the
//! specification fixes the outcome (within the capacity of every block: the clean text) or judges
//! it afterwards (beyond it: whatever was accepted is recorded and given to TLC).
use crate::report::*;
use crate::symbols::{case_matrix, info, plain, u};
use crate::tables::*;
use serde_json::{json, Value};

fn mul_exp(t: &Tables, a: u8, k: usize) -> u8 {
    if a == 0 { 0 } else { t.exp[(t.log[a as usize - 1] + k) % 255] }
}

/// n errors in a block of `len` codewords: positions (from 1) and values
fn pattern(t: &Tables, r: &mut Rng, len: usize, n: usize) -> Vec<(usize, u8)> {
    let mut pos: Vec<usize> = vec![];
    match r.below(6) {
        0 => pos.extend(1..=n),
        1 => pos.extend(len + 1 - n..=len),
        2 => {
            let s = r.below(len - n + 1);
            pos.extend(s + 1..=s + n);
        }
        _ => while pos.len() < n {
            let p = 1 + r.below(len);
            if !pos.contains(&p) {
                pos.push(p);
            }
        },
    }
    let mut val: Vec<u8> = pos.iter().map(|_| 1 + r.below(255) as u8).collect();
    match r.below(6) {
        0 => val = vec![val[0]; n],
        1 => val.iter_mut().for_each(|v| *v = 1 << (*v % 8)),
        // one of the sums the decoder forms is zero
        2 | 3 if n > 1 => {
            let k = r.below(2 * n);
            let s = (0..n - 1).fold(0, |a, i| a ^ mul_exp(t, val[i], k * (len - pos[i])));
            let last = mul_exp(t, s, 255 * 255 - k * (len - pos[n - 1]));
            if last != 0 {
                val[n - 1] = last;
            }
        }
        _ => {}
    }
    pos.into_iter().zip(val).collect()
}

/// errors that leave the block within capacity of another codeword, one that differs in a single data codeword
fn towards(t: &Tables, r: &mut Rng, data: usize, ec: usize, cap: usize) -> Vec<(usize, u8)> {
    let mut d = vec![0; data];
    d[r.below(data)] = 1 + r.below(255) as u8;
    let parity = crate::symbol::parity(t, &d, ec);
    let mut diff: Vec<(usize, u8)> = d.into_iter().chain(parity).enumerate().filter(|x| x.1 != 0).map(|x| (x.0 + 1, x.1)).collect();
    for _ in 0..cap {
        let k = r.below(diff.len());
        diff.remove(k);
    }
    diff
}

/// harness damage TABLES CLEAN MODE COUNT TRACE OUT: MODE is within, over or near; COUNT plans for each symbol of CLEAN
pub fn run(t: &Tables, clean: &str, mode: &str, count: usize, trace: &str, out: &str) {
    let mut cases = read_cases(clean);
    let mut seen = std::collections::HashSet::new();
    cases.retain(|c| seen.insert((u(&c["v"]), u(&c["l"]))));
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    // (symbol, plan): the first plans of a symbol are one wrong codeword in every place
    let mut work = vec![];
    for (k, c) in cases.iter().enumerate() {
        let lv = &t.v(u(&c["v"]) as u32).levels[u(&c["l"]) - 1];
        if mode == "within" {
            work.extend((0..*lv.total.iter().max().unwrap()).map(|p| (k, Some(p), 0)));
        }
        work.extend((0..count).map(|i| (k, None, i)));
    }
    let rep = Report::default();
    // a decoder that accepts nearly everything need not be judged on all of it
    let most = if std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") { 4000 } else { 200 };
    parallel(work.len(), out, &rep, 60, |i| {
        let (k, place, j) = work[i];
        let c = &cases[k];
        let (v, l) = (u(&c["v"]) as u32, u(&c["l"]));
        let lv = &t.v(v).levels[l - 1];
        let mut r = Rng::new((seed * 1_000_003 + i as u64) * 2 + u64::from(mode != "within"));
        let mask = r.below(8) as usize;
        let nb = lv.total.len();
        let bad = r.below(nb);
        let (mut plan, mut bits) = (vec![], 0);
        for b in 0..nb {
            let len = lv.total[b];
            let errs = match place {
                // the same place in all blocks, or in one of them
                Some(p) if p < len && (nb < 3 || r.below(4) > 0) => vec![(p + 1, 1 + r.below(255) as u8)],
                Some(_) => vec![],
                None if mode == "near" && b == bad => towards(t, &mut r, lv.data[b], lv.ec, lv.cap),
                None if mode == "over" && b == bad => {
                    let n = lv.cap + 1 + match r.below(4) { 0 | 1 => 0, 2 => r.below(4), _ => r.below(len - lv.cap) };
                    pattern(t, &mut r, len, n.min(len))
                }
                None => {
                    let n = match r.below(5) { 0 => 0, 1 => 1, 2 => 1 + r.below(lv.cap), _ => lv.cap };
                    if n == 0 || (mode != "within" && j % 2 == 0) { vec![] } else { pattern(t, &mut r, len, n) }
                }
            };
            for (p, x) in errs {
                plan.push(json!([b + 1, p, x]));
                bits += u64::from(x.count_ones());
            }
        }
        let mut case = c.clone();
        case["plan"] = Value::Array(plan);
        case["mask"] = json!(mask);
        rep.eval();
        if mode == "within" {
            case["ok"] = json!(true);
            case["errors"] = json!(bits);
            crate::symbols::judge(&rep, t, &case, mask);
            return;
        }
        let px = case_matrix(t, &case, mask).pixels();
        match (plain(px.clone(), v), info(px, v)) {
            (Err(e), _) | (_, Err(e)) => rep.fail("panic", e, case),
            (a, b) => {
                let (a, b) = (a.unwrap().ok(), b.unwrap().ok());
                let accepted = a.is_some() || b.is_some();
                rep.count(if accepted { "accepted" } else { "refused" }, 1);
                if !accepted && mode == "over" {
                    return;
                }
                case["plain"] = json!(u8::from(a.is_some()));
                case["info"] = json!(u8::from(b.is_some()));
                case["errors_info"] = json!(b.as_ref().map_or(0, |x| x.1.errors));
                case["got"] = json!(a.unwrap_or_default().into_bytes());
                case["got_info"] = json!(b.map_or(String::new(), |x| x.0).into_bytes());
                let mut tr = rep.trace.lock().unwrap();
                if tr.len() < most {
                    tr.push(case);
                }
            }
        }
    });
    rep.count("distinct", rep.evaluations.load(std::sync::atomic::Ordering::Relaxed));
    let mut recorded = std::mem::take(&mut *rep.trace.lock().unwrap());
    recorded.sort_by_key(|c| c.to_string());
    std::fs::write(trace, Value::Array(recorded).to_string()).expect("trace");
    rep.write(out);
}
