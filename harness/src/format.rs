//! Format information: every value of the two format words.
use crate::report::*;
use crate::symbol::*;
use crate::symbols::*;
use crate::tables::*;
use serde_json::{json, Value};

struct Content {
    data: Vec<u8>,
    text: Vec<u8>,
}

/// judge one pair of format words; `draw` = format the symbol is drawn for; `ok` = expected outcome
fn one(rep: &Report, t: &Tables, c: &[Content], v: u32, w: (u32, u32), draw: usize, ok: bool) {
    let (l, m) = (draw / 8 + 1, draw % 8);
    let content = &c[l - 1];
    let mx = assemble(t, v, l, m, &blocks(t, v, l, &content.data), w);
    let case = || json!({"v": v, "l": l, "mask": m, "fmt1": w.0, "fmt2": w.1, "data": content.data, "text": content.text, "ok": ok});
    rep.eval();
    match info(mx.pixels(), v) {
        Err(p) => rep.fail("panic", p, case()),
        Ok(Ok((s, i))) => {
            let want = ["LOW", "MEDIUM", "QUARTILE", "HIGH"][l - 1];
            if !ok {
                rep.fail("format", format!("v{} format words {:015b} {:015b}: both beyond repair, but {:?} returned", v, w.0, w.1, s), case())
            } else if s.as_bytes() != content.text || format!("{:?}", i.ec_level) != want {
                rep.fail("format", format!("v{} format words {:015b} {:015b}: level {:?}, text {:?}", v, w.0, w.1, i.ec_level, s), case())
            }
        }
        Ok(Err(e)) => {
            if ok {
                rep.fail("format", format!("v{} format words {:015b} {:015b}: refused: {}", v, w.0, w.1, e), case())
            }
        }
    }
}

/// harness format TABLES FORMATS OUT TEXTS FULL STEP: versions in FULL (comma list) exhaustively, the others every STEPth word
pub fn run(t: &Tables, formats: &str, out: &str, texts: &str, full: &str, step: usize) {
    let mut read: Vec<(usize, usize)> = vec![]; // word -> (closest format, distance)
    for k in 0..128 {
        for e in read_json(&format!("{}/fmt-{}.json", formats, k)).as_array().unwrap() {
            let e = ints(e);
            read.push((e[0] - 1, e[1]));
        }
    }
    assert_eq!(read.len(), 32768);
    let word = |f: usize| t.formats[f / 8][f % 8];
    for f in 0..32 {
        assert_eq!(read[word(f) as usize], (f, 0));
    }
    let lost: Vec<u32> = (0..32768u32).filter(|w| read[*w as usize].1 > 3).collect();
    let contents: Vec<Vec<Content>> = (1..=40)
        .map(|v| {
            (1..=4)
                .map(|l| {
                    let c: Value = read_json(&format!("{}/text-{}-{}.json", texts, v, l));
                    let c = &c[if v < 3 { 0 } else { 1 }];
                    Content { data: bytes(&c["data"]), text: bytes(&c["text"]) }
                })
                .collect()
        })
        .collect();
    let full: Vec<u32> = full.split(',').map(|x| x.parse().unwrap()).collect();
    let rep = Report::default();
    let mut work = vec![];
    for v in 1..=40u32 {
        let st = if full.contains(&v) { 1 } else { step };
        let mut w = v as usize % st;
        while w < 32768 {
            work.push((v, w as u32));
            w += st;
        }
    }
    parallel(work.len(), out, &rep, 60, |i| {
        let (v, w) = work[i];
        let c = &contents[v as usize - 1];
        let (best, d) = read[w as usize];
        // copy 1 = w; copy 2 = another format, undamaged or with up to three wrong bits
        let f2 = (best + 1 + (w as usize * 7) % 31) % 32;
        let noise = [0, 1 << (w % 15), (1 << (w % 15)) | 1 << ((w / 15) % 15), 0b100100000000001 >> (w % 3)][(w % 4) as usize];
        one(&rep, t, c, v, (w, word(f2) ^ noise), if d <= 3 { best } else { f2 }, true);
        // copy 1 beyond repair, copy 2 = w
        let w1 = lost[(w as usize * 5003 + v as usize) % lost.len()];
        let drawn = if d <= 3 || w % 2 == 0 { best } else { read[w1 as usize].0 };
        one(&rep, t, c, v, (w1, w), drawn, d <= 3);
        if i % 4999 == 0 {
            rep.sample(|| json!({"v": v, "copy1": w, "copy2": word(f2) ^ noise, "read_as_format": best, "wrong_bits": d}));
        }
    });
    rep.count("words_beyond_repair", lost.len() as u64);
    rep.count("exhaustive_versions", full.len() as u64);
    rep.count("distinct", 2 * work.len() as u64);
    rep.write(out);
}
