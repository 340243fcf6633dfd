//! Pictures: drawn from the exact placements of Scene.tla, and judged by what they show.
use crate::report::*;
use crate::symbol::*;
use crate::symbols::u;
use crate::tables::*;
use bardecoder::detect::{Detect, LineScan, Location};
use bardecoder::extract::{Extract, QRExtractor};
use bardecoder::prepare::{BlockedMean, Prepare};
use bardecoder::util::qr::QRLocation;
use bardecoder::util::Point;
use image::{GrayImage, Luma, Rgba, RgbaImage};
use serde_json::{json, Value};
use std::collections::HashMap;

fn signed(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("integer expected, got {}", v))
}
fn triple(v: &Value) -> [i64; 3] {
    [signed(&v[0]), signed(&v[1]), signed(&v[2])]
}

pub struct Code {
    pub version: u32,
    pub n: i64,
    pub matrix: Matrix,
    pub text: Vec<u8>,
    pub readable: bool,
    pub tl: (f64, f64),
    pub tr: (f64, f64),
    pub bl: (f64, f64),
    pub module: f64,
    cu: [i64; 3],
    cv: [i64; 3],
    cw: [i64; 3],
    cz: [i64; 3],
    ox: i64,
    oy: i64,
}
pub struct Scene {
    pub name: String,
    pub codes: Vec<Code>,
    pub gray: Vec<u8>,
    pub w: u32,
    pub h: u32,
    pub dark: u8,
    pub light: u8,
}

/// contents per (version, level): [short, full]
pub struct Texts(HashMap<(usize, usize), Value>);
impl Texts {
    pub fn load(dir: &str) -> Texts {
        let mut m = HashMap::new();
        for v in 1..=40 {
            for l in 1..=4 {
                m.insert((v, l), read_json(&format!("{}/text-{}-{}.json", dir, v, l)));
            }
        }
        Texts(m)
    }
    pub fn get(&self, v: usize, l: usize, k: usize) -> &Value {
        &self.0[&(v, l)][k]
    }
}

impl Code {
    pub fn module_at(&self, px: i64, py: i64) -> Option<(usize, usize)> {
        let (x, y) = (2 * px + 1 - self.ox, 2 * py + 1 - self.oy);
        let f = |c: &[i64; 3]| c[0] * x + c[1] * y + c[2];
        let floor = |a: i64, w: i64| if w < 0 { (-a).div_euclid(-w) } else { a.div_euclid(w) };
        let (w, z) = (f(&self.cw), f(&self.cz));
        if w == 0 || z == 0 {
            return None;
        }
        let (i, j) = (floor(f(&self.cu), w), floor(f(&self.cv), z));
        if i >= 0 && j >= 0 && i < self.n && j < self.n {
            Some((i as usize, j as usize))
        } else {
            None
        }
    }
    pub fn location(&self) -> QRLocation {
        let p = |q: (f64, f64)| Point { x: q.0, y: q.1 };
        QRLocation { top_left: p(self.tl), top_right: p(self.tr), bottom_left: p(self.bl), module_size: self.module, version: self.version }
    }
}

pub fn load(t: &Tables, texts: &Texts, c: &Value) -> Scene {
    let (w, h) = (u(&c["w"]) as u32, u(&c["h"]) as u32);
    let (dark, light) = (u(&c["dark"]) as u8, u(&c["light"]) as u8);
    let mut codes = vec![];
    for q in c["codes"].as_array().unwrap() {
        let (v, l, mask) = (u(&q["v"]), u(&q["l"]), u(&q["mask"]));
        let text = texts.get(v, l, u(&q["t"]));
        let mut b = blocks(t, v as u32, l, &bytes(&text["data"]));
        for d in q["plan"].as_array().unwrap() {
            let d = ints(d);
            b[d[0] - 1][d[1] - 1] ^= d[2] as u8;
        }
        let f = t.formats[l - 1][mask];
        let mut matrix = assemble(t, v as u32, l, mask, &b, (f, f));
        let patch = q["patch"].as_array().map(|a| a.as_slice()).unwrap_or(&[]);
        for d in patch {
            let d = ints(d);
            matrix.m[d[1] * matrix.side + d[0]] = d[2] as u8;
        }
        let p = &q["place"];
        let fd = &q["finders"];
        let den = signed(&fd["den"]) as f64;
        let pt = |k: &str| (signed(&fd[k][0]) as f64 / den, signed(&fd[k][1]) as f64 / den);
        codes.push(Code {
            version: v as u32,
            n: matrix.side as i64,
            matrix,
            text: bytes(&text["text"]),
            readable: q["readable"].as_bool().unwrap_or(true),
            tl: pt("tl"),
            tr: pt("tr"),
            bl: pt("bl"),
            module: signed(&p["sn"]) as f64 / signed(&p["sd"]) as f64,
            cu: triple(&q["coef"]["cu"]),
            cv: triple(&q["coef"]["cv"]),
            cw: triple(&q["coef"]["cw"]),
            cz: triple(&q["coef"]["cz"]),
            ox: signed(&p["ox"]),
            oy: signed(&p["oy"]),
        });
    }
    let mut gray = vec![light; (w * h) as usize];
    for c in &codes {
        for y in 0..h {
            for x in 0..w {
                if let Some((i, j)) = c.module_at(i64::from(x), i64::from(y)) {
                    gray[(y * w + x) as usize] = if c.matrix.at(i, j) == 1 { dark } else { light };
                }
            }
        }
    }
    for s in c["specks"].as_array().map(|a| a.as_slice()).unwrap_or(&[]) {
        let k = u(&s[1]) * w as usize + u(&s[0]);
        gray[k] = if gray[k] == dark { light } else { dark };
    }
    let mut p = crate::paint::Painted { w: i64::from(w), h: i64::from(h), gray };
    p.apply(t, texts, c);
    let mut gray = p.gray;
    for f in c["film"].as_array().map(|a| a.as_slice()).unwrap_or(&[]) {
        gray = film(f, gray, w as usize, h as usize);
    }
    Scene { name: c["name"].as_str().unwrap_or("").to_string(), codes, gray, w, h, dark, light }
}

/// light, blur and grain (Film.tla)
fn film(f: &Value, mut g: Vec<u8>, w: usize, h: usize) -> Vec<u8> {
    let clip = |v: i64| v.clamp(0, 255) as u8;
    let (a, bx, by, d) = (signed(&f["a"]), signed(&f["bx"]), signed(&f["by"]), signed(&f["d"]));
    for (k, p) in g.iter_mut().enumerate() {
        *p = clip((i64::from(*p) * (a + bx * (k % w) as i64 + by * (k / w) as i64)).div_euclid(d));
    }
    let r = u(&f["blur"]);
    if r > 0 {
        let mut sums = vec![0u32; (w + 1) * (h + 1)];
        for y in 0..h {
            for x in 0..w {
                sums[(y + 1) * (w + 1) + x + 1] = u32::from(g[y * w + x]) + sums[y * (w + 1) + x + 1] + sums[(y + 1) * (w + 1) + x] - sums[y * (w + 1) + x];
            }
        }
        for y in 0..h {
            for x in 0..w {
                let (x1, y1, x2, y2) = (x.saturating_sub(r), y.saturating_sub(r), (x + r + 1).min(w), (y + r + 1).min(h));
                let s = sums[y2 * (w + 1) + x2] + sums[y1 * (w + 1) + x1] - sums[y1 * (w + 1) + x2] - sums[y2 * (w + 1) + x1];
                g[y * w + x] = (s / ((x2 - x1) * (y2 - y1)) as u32) as u8;
            }
        }
    }
    let (amp, s) = (signed(&f["grain"]), signed(&f["s"]));
    for (k, p) in g.iter_mut().enumerate() {
        *p = clip(i64::from(*p) + hash(s, k as i64) % (2 * amp + 1) - amp);
    }
    g
}
fn hash(s: i64, i: i64) -> i64 {
    let a = (s + (i % 46337) * 31 + (i / 46337) * 7 + 7) % 46337;
    let b = (a * a + 12345) % 46337;
    let c = (b * 40503 + (i % 46337) * 3 + s) % 46337;
    let d = (c * c + b) % 46337;
    (d * 40503 + c) % 46337
}

impl Scene {
    pub fn rgba(&self) -> RgbaImage {
        RgbaImage::from_fn(self.w, self.h, |x, y| {
            let g = self.gray[(y * self.w + x) as usize];
            Rgba([g, g, g, 255])
        })
    }
    pub fn luma(&self) -> GrayImage {
        GrayImage::from_fn(self.w, self.h, |x, y| Luma([self.gray[(y * self.w + x) as usize]]))
    }
}

/// an upright black on white symbol at a given corner
pub fn draw_plain(img: &mut RgbaImage, m: &Matrix, scale: u32, x0: u32, y0: u32) {
    for y in 0..m.side as u32 * scale {
        for x in 0..m.side as u32 * scale {
            if m.at((x / scale) as usize, (y / scale) as usize) == 1 {
                img.put_pixel(x0 + x, y0 + y, Rgba([0, 0, 0, 255]));
            }
        }
    }
}

/// results as comparable strings
pub fn outcome(img: &RgbaImage) -> Result<Vec<Result<String, String>>, String> {
    guarded(|| bardecoder::default_decoder().decode(img).into_iter().map(|r| r.map_err(|e| e.to_string())).collect())
}
pub fn outcome_info(img: &RgbaImage) -> Result<Vec<Result<String, String>>, String> {
    guarded(|| {
        bardecoder::default_decoder_with_info().decode(img).into_iter().map(|r| r.map(|x| x.0).map_err(|e| e.to_string())).collect()
    })
}

/// How far a reported location may be from the true one, in modules. Centres are found by
/// counting whole pixels, so half a pixel is added.
const CENTRE: f64 = 0.75;

fn near(c: &Code, l: &QRLocation) -> Option<f64> {
    let d = |p: &Point, q: (f64, f64)| ((p.x - q.0).powi(2) + (p.y - q.1).powi(2)).sqrt();
    let e = d(&l.top_left, c.tl).max(d(&l.top_right, c.tr)).max(d(&l.bottom_left, c.bl)) / c.module;
    if l.version == c.version && e <= CENTRE + 0.5 / c.module && (l.module_size / c.module - 1.0).abs() <= 0.2 {
        Some(e)
    } else {
        None
    }
}

fn judge(rep: &Report, s: &Scene, c: &Value, worst: &std::sync::Mutex<[f64; 2]>) {
    rep.eval();
    let img = s.rgba();
    let want: Vec<String> = s.codes.iter().filter(|c| c.readable).map(|c| String::from_utf8_lossy(&c.text).to_string()).collect();
    let short = |x: &str| x.chars().take(40).collect::<String>();
    for (who, got) in [("default_decoder", outcome(&img)), ("default_decoder_with_info", outcome_info(&img))] {
        match got {
            Err(p) => rep.fail("panic", format!("{}: {}", who, p), c.clone()),
            Ok(rs) => {
                let mut left = want.clone();
                let mut errs = vec![];
                for r in rs {
                    match r {
                        Ok(t) => match left.iter().position(|x| *x == t) {
                            Some(i) => {
                                left.remove(i);
                            }
                            None if want.contains(&t) => rep.fail("duplicate", format!("{} {}: {:?} returned too often", s.name, who, short(&t)), c.clone()),
                            None => rep.fail("invented", format!("{} {}: {:?} is not in the picture", s.name, who, short(&t)), c.clone()),
                        },
                        Err(e) => errs.push(e),
                    }
                }
                for t in &left {
                    rep.fail("missing", format!("{} {}: {:?} not returned; errors {:?}", s.name, who, short(t), errs), c.clone());
                }
            }
        }
    }
    // locations
    let locs = guarded(|| LineScan::new().detect(&BlockedMean::new(5, 7).prepare(&img)));
    match locs {
        Err(p) => rep.fail("panic", format!("{} detection: {}", s.name, p), c.clone()),
        Ok(ls) => {
            for q in &s.codes {
                match ls.iter().filter_map(|Location::QR(l)| near(q, l).map(|e| (e, (l.module_size / q.module - 1.0).abs()))).next() {
                    Some(e) => {
                        let mut w = worst.lock().unwrap();
                        w[0] = w[0].max(e.0 - 0.5 / q.module);
                        w[1] = w[1].max(e.1);
                    }
                    None => {
                        let seen: Vec<String> = ls.iter().map(|Location::QR(l)| format!("{:?}", l)).take(3).collect();
                        rep.fail("location", format!("{}: no location for the version {} code at {:?} {:?} {:?} module {}; found {:?}", s.name, q.version, q.tl, q.tr, q.bl, q.module, seen), c.clone())
                    }
                }
            }
            rep.count("extra_locations", ls.len().saturating_sub(s.codes.len()) as u64);
        }
    }
}

/// every pixel of the given rows inverted on its own
fn sweep(rep: &Report, s: &Scene, c: &Value) {
    let want = String::from_utf8_lossy(&s.codes[0].text).to_string();
    let d = bardecoder::default_decoder();
    let mut img = s.rgba();
    for y in ints(&c["sweep"]) {
        for x in 0..s.w as usize {
            let p = *img.get_pixel(x as u32, y as u32);
            let g = if p[0] == s.dark { s.light } else { s.dark };
            img.put_pixel(x as u32, y as u32, Rgba([g, g, g, 255]));
            rep.eval();
            let r = guarded(|| d.decode(&img));
            let texts: Vec<String> = match &r {
                Ok(r) => r.iter().filter_map(|x| x.as_ref().ok().cloned()).collect(),
                Err(_) => vec![],
            };
            let errors: Vec<String> = match &r {
                Ok(r) => r.iter().filter_map(|x| x.as_ref().err().map(|e| e.to_string())).collect(),
                Err(p) => vec![p.clone()],
            };
            if texts != [want.clone()] {
                let mut case = c.clone();
                case["sweep"] = json!([]);
                case["specks"] = json!([[x, y]]);
                rep.fail("missing", format!("{}: pixel {} {} inverted: texts {:?}, errors {:?}", s.name, x, y, texts, errors), case);
            }
            img.put_pixel(x as u32, y as u32, p);
        }
    }
    rep.count("distinct", s.w as u64 * c["sweep"].as_array().unwrap().len() as u64 - 1);
}

/// harness scenes TABLES TEXTS INPUT OUT
pub fn run(t: &Tables, texts: &str, input: &str, out: &str) {
    let texts = Texts::load(texts);
    let cases = read_cases(input);
    let rep = Report::default();
    let worst = std::sync::Mutex::new([0.0f64; 2]);
    parallel(cases.len(), out, &rep, 300, |i| {
        let s = load(t, &texts, &cases[i]);
        if cases[i]["sweep"].as_array().map(|a| !a.is_empty()).unwrap_or(false) {
            sweep(&rep, &s, &cases[i]);
        } else {
            judge(&rep, &s, &cases[i], &worst);
        }
        if i % 97 == 3 {
            rep.sample(|| cases[i].clone());
        }
    });
    let w = worst.lock().unwrap();
    rep.count("worst_centre_permille", (w[0].max(0.0) * 1000.0) as u64);
    rep.count("worst_module_permille", (w[1] * 1000.0) as u64);
    rep.count("distinct", cases.len() as u64);
    rep.write(out);
}

/// harness extract TABLES TEXTS INPUT OUT: extraction at the true location of a black and white picture
pub fn extract(t: &Tables, texts: &str, input: &str, out: &str) {
    let texts = Texts::load(texts);
    let cases = read_cases(input);
    let rep = Report::default();
    parallel(cases.len(), out, &rep, 60, |i| {
        let c = &cases[i];
        let s = load(t, &texts, c);
        let g = s.luma();
        let off = c["off"].as_bool().unwrap_or(false);
        for q in &s.codes {
            rep.eval();
            match guarded(|| QRExtractor::new().extract(&g, q.location())) {
                Err(p) => rep.fail("panic", format!("{}: {}", s.name, p), c.clone()),
                Ok(Err(e)) if !off => rep.fail("refused", format!("{}: {}", s.name, e), c.clone()),
                Ok(Err(_)) => {}
                Ok(Ok(d)) if off => rep.fail("invented", format!("{}: {} modules returned for a code that is partly outside", s.name, d.data.len()), c.clone()),
                Ok(Ok(d)) => {
                    let want = q.matrix.pixels();
                    if d.version != q.version || i64::from(d.side) != q.n || d.data.len() != want.len() {
                        rep.fail("shape", format!("{}: version {} side {} length {}", s.name, d.version, d.side, d.data.len()), c.clone());
                    } else if d.data != want {
                        let k = (0..want.len()).find(|k| want[*k] != d.data[*k]).unwrap();
                        let n = (0..want.len()).filter(|k| want[*k] != d.data[*k]).count();
                        rep.fail("module", format!("{}: {} modules differ, the first in row {} column {}", s.name, n, k / q.matrix.side, k % q.matrix.side), c.clone());
                    }
                }
            }
        }
        if i % 97 == 3 {
            rep.sample(|| c.clone());
        }
    });
    rep.count("distinct", cases.len() as u64);
    rep.write(out);
}

/// the drawing of this harness against the pictures TLC computed
pub fn selfcheck(t: &Tables, texts: &str, input: &str) {
    let texts = Texts::load(texts);
    let mut n = 0;
    for c in read_cases(input) {
        let s = load(t, &texts, &c);
        if let Some(p) = c.get("pixels") {
            n += 1;
            if let Some(k) = bytes(p).iter().zip(&s.gray).position(|(a, b)| a != b) {
                eprintln!("self check failed: {} pixel {} is {} instead of {}", s.name, k, s.gray[k], p[k]);
                std::process::exit(3);
            }
        }
        if let Some(p) = c.get("cells") {
            n += 1;
            let q = &s.codes[0];
            for (k, want) in ints(p).into_iter().enumerate() {
                let got = match q.module_at((k as u32 % s.w).into(), (k as u32 / s.w).into()) {
                    None => 0,
                    Some((i, j)) => 1 + j * q.n as usize + i,
                };
                if got != want {
                    eprintln!("self check failed: {} pixel {} shows {} instead of {}", s.name, k, got, want);
                    std::process::exit(3);
                }
            }
        }
    }
    println!("{} pictures as computed by TLC", n);
}
