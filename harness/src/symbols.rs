//! Decoding of module matrices: cases with expected outcome, computed by TLC.
use crate::report::*;
use crate::symbol::*;
use crate::tables::*;
use bardecoder::decode::{Decode, QRDecoder, QRDecoderWithInfo};
use bardecoder::util::qr::{QRData, QRError};
use bardecoder::QRInfo;
use serde_json::{json, Value};

pub type Plain = Result<Result<String, QRError>, String>;
pub type Info = Result<Result<(String, QRInfo), QRError>, String>;

pub fn plain(px: Vec<u8>, v: u32) -> Plain {
    guarded(|| QRDecoder::new().decode(Ok(QRData::new(px, v))))
}
pub fn info(px: Vec<u8>, v: u32) -> Info {
    guarded(|| QRDecoderWithInfo::new().decode(Ok(QRData::new(px, v))))
}

pub fn u(v: &Value) -> usize {
    v.as_u64().unwrap_or_else(|| panic!("number expected, got {}", v)) as usize
}

/// the matrix of a case: v, l, mask, data, plan (xor values on codewords), fmt1, fmt2
pub fn case_matrix(t: &Tables, c: &Value, mask: usize) -> Matrix {
    let (v, l) = (u(&c["v"]) as u32, u(&c["l"]));
    let mut b = blocks(t, v, l, &bytes(&c["data"]));
    if let Some(plan) = c["plan"].as_array() {
        for d in plan {
            let d = ints(d);
            b[d[0] - 1][d[1] - 1] ^= d[2] as u8;
        }
    }
    let f = t.formats[l - 1][mask];
    let f1 = c["fmt1"].as_u64().map(|x| x as u32).unwrap_or(f);
    let f2 = c["fmt2"].as_u64().map(|x| x as u32).unwrap_or(f);
    assemble(t, v, l, mask, &b, (f1, f2))
}

/// Runs one matrix and compares with the expectation of the case.
pub fn judge(rep: &Report, t: &Tables, c: &Value, mask: usize) {
    let m = case_matrix(t, c, mask);
    let (v, l) = (u(&c["v"]) as u32, u(&c["l"]));
    let ok = c["ok"].as_bool().unwrap_or(true);
    let text = bytes(&c["text"]);
    let px = m.pixels();
    let p = plain(px.clone(), v);
    let i = info(px, v);
    rep.eval();
    let case = || {
        let mut c = c.clone();
        c["mask"] = json!(mask);
        c
    };
    let short = |b: &[u8]| String::from_utf8_lossy(b).chars().take(60).collect::<String>();
    let who = |which: &str, got: Result<Result<&[u8], String>, &String>| match got {
        Err(p) => rep.fail("panic", format!("{}: {}", which, p), case()),
        Ok(Ok(s)) if !ok => rep.fail("accepted", format!("{}: text {:?} returned, error expected", which, short(s)), case()),
        Ok(Ok(s)) if s != text => {
            rep.fail("text", format!("{}: got {:?}, expected {:?}", which, short(s), short(&text)), case())
        }
        Ok(Err(e)) if ok => rep.fail("refused", format!("{}: error {:?}, expected {:?}", which, e, short(&text)), case()),
        _ => {}
    };
    who("QRDecoder", p.as_ref().map(|r| r.as_ref().map(|s| s.as_bytes()).map_err(|e| e.to_string())));
    who(
        "QRDecoderWithInfo",
        i.as_ref().map(|r| r.as_ref().map(|(s, _)| s.as_bytes()).map_err(|e| e.to_string())),
    );
    // the two decoders against each other, and the information
    match (&p, &i) {
        (Ok(Ok(a)), Ok(Ok((b, _)))) if a != b => rep.fail("info-text", "the two decoders return different texts".into(), case()),
        (Ok(Ok(_)), Ok(Err(e))) => rep.fail("info-outcome", format!("only the decoder with info fails: {}", e), case()),
        (Ok(Err(e)), Ok(Ok(_))) => rep.fail("info-outcome", format!("only the plain decoder fails: {}", e), case()),
        (Ok(Err(a)), Ok(Err(b))) if a != b => {
            rep.fail("info-error", format!("the decoders return different errors: {} / {}", a, b), case())
        }
        (Ok(_), Err(e)) | (Err(e), Ok(_)) => rep.fail("info-panic", format!("only one decoder panics: {}", e), case()),
        _ => {}
    }
    if let (true, Ok(Ok((_, inf)))) = (ok, &i) {
        let lv = &t.v(v).levels[l - 1];
        let total = 8 * lv.data.iter().sum::<usize>();
        let errors = c["errors"].as_u64().unwrap_or(0);
        let level = format!("{:?}", inf.ec_level);
        let want = ["LOW", "MEDIUM", "QUARTILE", "HIGH"][l - 1];
        let mut bad = vec![];
        if inf.version != v {
            bad.push(format!("version {} instead of {}", inf.version, v));
        }
        if level != want {
            bad.push(format!("level {} instead of {}", level, want));
        }
        if inf.total_data as usize != total {
            bad.push(format!("total_data {} instead of {}", inf.total_data, total));
        }
        if u64::from(inf.errors) != errors {
            bad.push(format!("errors {} instead of {}", inf.errors, errors));
        }
        if !bad.is_empty() {
            rep.fail("info-fields", bad.join(", "), case());
        }
    }
}

pub fn run(t: &Tables, input: &str, out: &str) {
    let cases = read_cases(input);
    let rep = Report::default();
    let mut work = vec![];
    let mut nontrivial = std::collections::HashSet::new();
    for (k, c) in cases.iter().enumerate() {
        match c["mask"].as_u64() {
            Some(m) => work.push((k, m as usize)),
            None => work.extend((0..8).map(|m| (k, m))),
        }
        nontrivial.insert(c.to_string());
    }
    parallel(work.len(), out, &rep, 60, |i| {
        let (k, m) = work[i];
        judge(&rep, t, &cases[k], m);
        if i % 997 == 5 {
            rep.sample(|| {
                let mut c = cases[k].clone();
                c["mask"] = json!(m);
                c
            });
        }
    });
    rep.count("cases", cases.len() as u64);
    rep.count("distinct", nontrivial.len() as u64);
    rep.write(out);
}

/// the assembly of this harness against the matrices TLC computed: a mismatch is a fault of the machinery
pub fn selfcheck(t: &Tables, input: &str) {
    for c in read_cases(input) {
        let m = case_matrix(t, &c, u(&c["mask"]));
        if m.m != bytes(&c["modules"]) {
            eprintln!("self check failed: v{} l{}", c["v"], c["l"]);
            std::process::exit(3);
        }
    }
}
