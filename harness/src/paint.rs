//! Pictures from paint operations (GenPictures.tla), and calls that have to return on them.
use crate::report::*;
use crate::scene::{self, Texts};
use crate::symbol::*;
use crate::symbols::u;
use crate::tables::*;
use bardecoder::decode::{Decode, QRDecoder, QRDecoderWithInfo};
use bardecoder::extract::{Extract, QRExtractor};
use bardecoder::util::qr::{QRData, QRLocation};
use bardecoder::util::Point;
use image::{GrayImage, Rgba, RgbaImage};
use serde_json::Value;

pub struct Painted {
    pub w: i64,
    pub h: i64,
    pub gray: Vec<u8>,
}

impl Painted {
    fn set(&mut self, x: i64, y: i64, g: u8) {
        if x >= 0 && y >= 0 && x < self.w && y < self.h {
            self.gray[(y * self.w + x) as usize] = g;
        }
    }
    fn rect(&mut self, x: i64, y: i64, w: i64, h: i64, g: u8) {
        for b in y.max(0)..(y + h).min(self.h) {
            for a in x.max(0)..(x + w).min(self.w) {
                self.set(a, b, g);
            }
        }
    }
    pub fn rgba(&self) -> RgbaImage {
        RgbaImage::from_fn(self.w as u32, self.h as u32, |x, y| {
            let g = self.gray[(i64::from(y) * self.w + i64::from(x)) as usize];
            Rgba([g, g, g, 255])
        })
    }
    pub fn luma(&self) -> GrayImage {
        GrayImage::from_raw(self.w as u32, self.h as u32, self.gray.clone()).unwrap()
    }
}

/// a picture: codes placed exactly (Scene.tla) if it has any, otherwise a ground; then paint operations
pub fn paint(t: &Tables, texts: &Texts, c: &Value) -> Painted {
    let (w, h) = (u(&c["w"]) as i64, u(&c["h"]) as i64);
    if c.get("codes").is_some() {
        return Painted { w, h, gray: scene::load(t, texts, c).gray };
    }
    let mut p = Painted { w, h, gray: vec![u(&c["ground"]) as u8; (w * h) as usize] };
    p.apply(t, texts, c);
    p
}

impl Painted {
    /// the paint operations of a case
    pub fn apply(&mut self, t: &Tables, texts: &Texts, c: &Value) {
        let n = |v: &Value| v.as_i64().unwrap_or_else(|| panic!("integer expected, got {}", v));
        let (w, h) = (self.w, self.h);
        let p = self;
        for o in c.get("ops").and_then(|o| o.as_array()).unwrap_or(&vec![]) {
            let a = |k: usize| n(&o[k]);
            match o[0].as_str().unwrap() {
                "fill" => p.rect(a(1), a(2), a(3), a(4), a(5) as u8),
                "noise" => {
                    let mut r = Rng::new(a(7) as u64);
                    for y in a(2)..a(2) + a(4) {
                        for x in a(1)..a(1) + a(3) {
                            if (r.below(1000) as i64) < a(5) {
                                p.set(x, y, a(6) as u8);
                            }
                        }
                    }
                }
                "finder" => {
                    let (x, y, sx, sy) = (a(1), a(2), a(3), a(4));
                    let (d, l) = if a(5) == 1 { (255, 0) } else { (0, 255) };
                    for (k, g) in [(0, d), (1, l), (2, d)] {
                        p.rect(x + k * sx, y + k * sy, (7 - 2 * k) * sx, (7 - 2 * k) * sy, g);
                    }
                }
                "align" => {
                    let (x, y, sx, sy) = (a(1), a(2), a(3), a(4));
                    for (k, g) in [(0, 0), (1, 255), (2, 0)] {
                        p.rect(x + k * sx, y + k * sy, (5 - 2 * k) * sx, (5 - 2 * k) * sy, g);
                    }
                }
                "runs" => {
                    let (mut at, mut dark) = (0, a(5) != 1);
                    for r in ints(&o[4]) {
                        let r = r as i64;
                        let g = if dark { 0 } else { 255 };
                        if a(1) == 1 {
                            p.rect(a(2), at, a(3), r, g);
                        } else {
                            p.rect(at, a(2), r, a(3), g);
                        }
                        at += r;
                        dark = !dark;
                    }
                }
                "bars" => {
                    // runs across a rectangle (vertical bars if the first argument is 0), dark first
                    let (mut at, mut dark, end) = (0, true, if a(1) == 1 { a(5) } else { a(4) });
                    for r in ints(&o[6]) {
                        let r = (r as i64).min(end - at);
                        let g = if dark { 0 } else { 255 };
                        if a(1) == 1 {
                            p.rect(a(2), a(3) + at, a(4), r, g);
                        } else {
                            p.rect(a(2) + at, a(3), r, a(5), g);
                        }
                        at += r;
                        dark = !dark;
                    }
                }
                "code" => {
                    let (v, l, mask) = (a(1) as u32, a(2) as usize, a(3) as usize);
                    let m = clean(t, v, l, mask, &bytes(&texts.get(v as usize, l, a(4) as usize)["data"]));
                    let (s, rot, k) = (a(5), a(6), m.side as i64);
                    for j in 0..k {
                        for i in 0..k {
                            let (x, y) = match rot {
                                0 => (i, j),
                                1 => (k - 1 - j, i),
                                2 => (k - 1 - i, k - 1 - j),
                                _ => (j, k - 1 - i),
                            };
                            let g = if m.at(i as usize, j as usize) == 1 { 0 } else { 255 };
                            p.rect(a(7) + x * s, a(8) + y * s, s, s, g);
                        }
                    }
                }
                "invert" => {
                    for y in a(2).max(0)..(a(2) + a(4)).min(h) {
                        for x in a(1).max(0)..(a(1) + a(3)).min(w) {
                            let k = (y * w + x) as usize;
                            p.gray[k] = 255 - p.gray[k];
                        }
                    }
                }
                k => panic!("unknown operation {}", k),
            }
        }
    }
}

pub fn location(c: &Value) -> QRLocation {
    let f = |v: &Value| v.as_i64().unwrap() as f64 / 8.0;
    let p = |k: &str| Point { x: f(&c[k][0]), y: f(&c[k][1]) };
    QRLocation { top_left: p("tl"), top_right: p("tr"), bottom_left: p("bl"), module_size: f(&c["module"]), version: u(&c["version"]) as u32 }
}

/// harness robust TABLES TEXTS INPUT OUT: pictures, extractions and matrices; every call has to return
pub fn run(t: &Tables, texts: &str, input: &str, out: &str) {
    let texts = Texts::load(texts);
    let cases = read_cases(input);
    let rep = Report::default();
    parallel(cases.len(), out, &rep, 120, |i| {
        let c = &cases[i];
        let p = paint(t, &texts, c);
        let name = c["name"].as_str().unwrap();
        rep.eval();
        let bad = |what: &str, e: String| rep.fail("panic", format!("{} {}: {}", name, what, e), c.clone());
        if c.get("tl").is_some() {
            match guarded(|| QRExtractor::new().extract(&p.luma(), location(c))) {
                Err(e) => bad("extract", e),
                Ok(Err(_)) => rep.count("extractions_refused", 1),
                Ok(Ok(d)) => {
                    let side = 4 * u(&c["version"]) + 17;
                    if d.data.len() != side * side || d.side as usize != side || u64::from(d.version) != u(&c["version"]) as u64 {
                        rep.fail("shape", format!("{}: version {} side {} length {}", name, d.version, d.side, d.data.len()), c.clone());
                    }
                    if let Err(e) = guarded(|| QRDecoder::new().decode(Ok(d))) {
                        bad("decode of the extracted matrix", e);
                    }
                    rep.count("extractions_done", 1);
                }
            }
        } else if c.get("version").is_some() {
            let d = || QRData::new(p.gray.clone(), u(&c["version"]) as u32);
            let a = guarded(|| QRDecoder::new().decode(Ok(d())));
            let b = guarded(|| QRDecoderWithInfo::new().decode(Ok(d())));
            match (a, b) {
                (Err(e), _) => bad("QRDecoder", e),
                (_, Err(e)) => bad("QRDecoderWithInfo", e),
                (Ok(a), Ok(b)) => {
                    rep.count(if a.is_ok() { "matrices_read" } else { "matrices_refused" }, 1);
                    if a != b.map(|x| x.0) {
                        rep.fail("info-text", format!("{}: the two decoders differ", name), c.clone());
                    }
                }
            }
        } else {
            let img = p.rgba();
            match guarded(|| bardecoder::default_decoder().decode(&img)) {
                Err(e) => bad("default_decoder", e),
                Ok(r) => {
                    rep.count("codes_reported", r.len() as u64);
                    rep.count("codes_read", r.iter().filter(|x| x.is_ok()).count() as u64);
                    rep.count("pictures_with_something_reported", u64::from(!r.is_empty()));
                }
            }
            if let Err(e) = guarded(|| bardecoder::default_decoder_with_info().decode(&img)) {
                bad("default_decoder_with_info", e);
            }
        }
        if i % 97 == 3 {
            rep.sample(|| c.clone());
        }
    });
    rep.count("distinct", cases.iter().map(|c| c.to_string()).collect::<std::collections::HashSet<_>>().len() as u64);
    rep.write(out);
}
