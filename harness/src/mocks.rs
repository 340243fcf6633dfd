//! Decoder and builder with recording components. Everything observed is written as a trace,
//! which TLC checks against Pipeline.tla and Builder.tla.
use crate::report::*;
use crate::scene::draw_plain;
use crate::symbols::u;
use crate::tables::*;
use anyhow::Error;
use bardecoder::decode::{Decode, QRDecoder, QRDecoderWithInfo};
use bardecoder::detect::{Detect, LineScan, Location};
use bardecoder::extract::{Extract, QRExtractor};
use bardecoder::prepare::{BlockedMean, Prepare};
use bardecoder::util::qr::{QRData, QRError, QRLocation};
use bardecoder::util::Point;
use bardecoder::{default_builder, default_builder_with_info, default_decoder, default_decoder_with_info};
use bardecoder::{Decoder, DecoderBuilder, QRInfo};
use image::{GrayImage, Luma, RgbaImage};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;

// ------------------------------------------------------------------ pipeline

struct Source(u64);
struct Prepared(u64);

#[derive(Default)]
struct State {
    ev: Vec<Value>,
    src: u64,
    token: u64,
    locs: Vec<u64>,
    fate: Vec<String>,
    next: usize,
}
type Shared = Rc<RefCell<State>>;
struct Part(Shared);

fn location(n: u64) -> QRLocation {
    let f = n as f64;
    QRLocation {
        top_left: Point { x: f, y: f + 0.25 },
        top_right: Point { x: f + 10.5, y: f + 2.0 },
        bottom_left: Point { x: f - 3.0, y: f + 17.0 },
        module_size: 1.0 + f / 8.0,
        version: 1 + (n as u32 % 40),
    }
}
fn same_location(a: &QRLocation, b: &QRLocation) -> bool {
    let p = |a: &Point, b: &Point| a.x == b.x && a.y == b.y;
    p(&a.top_left, &b.top_left)
        && p(&a.top_right, &b.top_right)
        && p(&a.bottom_left, &b.bottom_left)
        && a.module_size == b.module_size
        && a.version == b.version
}

impl Prepare<Source, Prepared> for Part {
    fn prepare(&self, input: &Source) -> Prepared {
        let mut s = self.0.borrow_mut();
        s.token += 1;
        let same = input.0 == s.src;
        s.ev.push(json!(["prepare", same]));
        Prepared(s.token)
    }
}
impl Detect<Prepared> for Part {
    fn detect(&self, p: &Prepared) -> Vec<Location> {
        let mut s = self.0.borrow_mut();
        let same = p.0 == s.token;
        s.ev.push(json!(["detect", same]));
        s.locs.iter().map(|n| Location::QR(location(*n))).collect()
    }
}
impl Extract<Prepared, QRLocation, QRData, QRError> for Part {
    fn extract(&self, p: &Prepared, loc: QRLocation) -> Result<QRData, QRError> {
        let mut s = self.0.borrow_mut();
        let i = s.next;
        s.next += 1;
        let same = p.0 == s.token;
        let right = i < s.locs.len() && same_location(&loc, &location(s.locs[i]));
        s.ev.push(json!(["extract", i + 1, same, right]));
        match s.fate.get(i).map(|f| f.as_str()) {
            Some("ok") | Some("dfail") => Ok(QRData { data: vec![(i % 256) as u8, (i / 256) as u8, 7], version: 1 + (i as u32 % 40), side: 3 }),
            _ => Err(QRError { msg: format!("x{}", i + 1) }),
        }
    }
}
impl Decode<QRData, String, QRError> for Part {
    fn decode(&self, data: Result<QRData, QRError>) -> Result<String, QRError> {
        let mut s = self.0.borrow_mut();
        let (i, given, intact) = match &data {
            Ok(d) => {
                let i = if d.data.len() == 3 { d.data[0] as usize + 256 * d.data[1] as usize } else { 99_999 };
                (i, "data", d.data.len() == 3 && d.data[2] == 7 && d.version == 1 + (i as u32 % 40) && d.side == 3)
            }
            Err(e) => (e.msg.trim_start_matches('x').parse::<usize>().map(|x| x - 1).unwrap_or(99_999), "error", e.msg.starts_with('x')),
        };
        s.ev.push(json!(["decode", i + 1, given, intact]));
        match s.fate.get(i).map(|f| f.as_str()) {
            Some("ok") | Some("xsaved") => Ok(format!("{}", i + 1)),
            Some("dfail") => Err(QRError { msg: format!("d{}", i + 1) }),
            _ => Err(data.err().unwrap_or(QRError { msg: "x0".into() })),
        }
    }
}

fn result(r: &Result<String, Error>) -> Value {
    match r {
        Ok(s) => json!(["ok", s.parse::<u64>().unwrap_or(0)]),
        Err(e) => match e.downcast_ref::<QRError>() {
            // the original error, recognisable as such
            Some(q) if e.to_string() == q.to_string() => json!([&q.msg[..1], q.msg[1..].parse::<u64>().unwrap_or(0)]),
            _ => json!(["other error", 0]),
        },
    }
}

// ---- the same with the library's own decoders behind recording wrappers

struct Stock {
    symbols: Vec<(QRData, String)>, // clean symbols and their texts
    broken: QRData,
}
impl Stock {
    fn new(t: &Tables, texts: &str) -> Stock {
        let mut symbols = vec![];
        for v in 1..=5u32 {
            for l in 1..=4 {
                for c in read_json(&format!("{}/text-{}-{}.json", texts, v, l)).as_array().unwrap() {
                    let m = crate::symbol::clean(t, v, l, (v as usize + l) % 8, &bytes(&c["data"]));
                    symbols.push((QRData::new(m.pixels(), v), String::from_utf8(bytes(&c["text"])).unwrap()));
                }
            }
        }
        Stock { symbols, broken: QRData::new(vec![255; 25 * 25], 2) }
    }
    fn symbol(&self, i: usize) -> &(QRData, String) {
        &self.symbols[(i * 7) % self.symbols.len()]
    }
}
fn copy(d: &QRData) -> QRData {
    QRData { data: d.data.clone(), version: d.version, side: d.side }
}
fn same_data(a: &QRData, b: &QRData) -> bool {
    a.data == b.data && a.version == b.version && a.side == b.side
}
/// what an extraction may complain about
fn complaint(i: usize) -> String {
    match i % 5 {
        0 => format!("x{}", i + 1),
        1 => format!("{}\n{}\u{0}", i + 1, "long ".repeat(60)),
        2 => format!("\u{e4}\u{1f600} {{}} {}", i + 1),
        3 if i == 3 => String::new(),
        _ => format!("QR error: could not decode {}", i + 1),
    }
}

struct Handing(Shared, Rc<Stock>);
impl Extract<Prepared, QRLocation, QRData, QRError> for Handing {
    fn extract(&self, p: &Prepared, loc: QRLocation) -> Result<QRData, QRError> {
        let mut s = self.0.borrow_mut();
        let i = s.next;
        s.next += 1;
        let same = p.0 == s.token;
        let right = i < s.locs.len() && same_location(&loc, &location(s.locs[i]));
        s.ev.push(json!(["extract", i + 1, same, right]));
        match s.fate.get(i).map(|f| f.as_str()) {
            Some("ok") => Ok(copy(&self.1.symbol(i).0)),
            Some("dfail") => Ok(copy(&self.1.broken)),
            _ => Err(QRError { msg: complaint(i) }),
        }
    }
}
/// records the call and lets the real component do the work
struct Wrapped<D>(Shared, Rc<Stock>, D);
impl<R, D: Decode<QRData, R, QRError>> Decode<QRData, R, QRError> for Wrapped<D> {
    fn decode(&self, data: Result<QRData, QRError>) -> Result<R, QRError> {
        {
            let mut s = self.0.borrow_mut();
            let i = s.ev.iter().filter(|e| e[0] == "decode").count();
            let intact = match (&data, s.fate.get(i).map(|f| f.as_str())) {
                (Ok(d), Some("ok")) => same_data(d, &self.1.symbol(i).0),
                (Ok(d), _) => same_data(d, &self.1.broken),
                (Err(e), _) => e.msg == complaint(i),
            };
            let given = if data.is_ok() { "data" } else { "error" };
            s.ev.push(json!(["decode", i + 1, given, intact]));
        }
        self.2.decode(data)
    }
}

fn real<R: std::fmt::Debug, D: Decode<QRData, R, QRError> + 'static>(
    mk: &dyn Fn() -> D,
    text: &dyn Fn(&R) -> String,
    stock: &Rc<Stock>,
    c: &Value,
    lines: &mut String,
) {
    let shared: Shared = Default::default();
    // the decoder cannot turn an error into a result
    let fate: Vec<String> = c["fate"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().replace("xsaved", "xfail")).collect();
    {
        let mut s = shared.borrow_mut();
        s.src = 7;
        s.locs = ints(&c["loc"]).into_iter().map(|x| x as u64).collect();
        s.fate = fate.clone();
    }
    let refusal = match mk().decode(Ok(copy(&stock.broken))) {
        Err(e) => e.msg,
        Ok(_) => "accepted".to_string(),
    };
    let mut b = DecoderBuilder::new();
    b.prepare(Box::new(Part(shared.clone())));
    b.detect(Box::new(Part(shared.clone())));
    b.qr(Box::new(Handing(shared.clone(), stock.clone())), Box::new(Wrapped(shared.clone(), stock.clone(), mk())));
    let d: Decoder<Source, Prepared, R> = b.build();
    let r = guarded(|| d.decode(&Source(7)));
    let fin = match &r {
        Ok(rs) => {
            let of = |(i, r): (usize, &Result<R, Error>)| match r {
                Ok(x) => json!(["ok", if text(x) == stock.symbol(i).1 { i + 1 } else { 0 }]),
                Err(e) => match e.downcast_ref::<QRError>() {
                    Some(q) if e.to_string() != q.to_string() => json!(["other error", 0]),
                    Some(q) if fate.get(i).map(|f| f.as_str()) == Some("xfail") && q.msg == complaint(i) => json!(["x", i + 1]),
                    Some(q) if fate.get(i).map(|f| f.as_str()) == Some("dfail") && q.msg == refusal => json!(["d", i + 1]),
                    Some(_) => json!(["changed error", i + 1]),
                    None => json!(["other error", i + 1]),
                },
            };
            json!(["return", rs.iter().enumerate().map(of).collect::<Vec<_>>()])
        }
        Err(p) => json!(["panic", p]),
    };
    let mut s = shared.borrow_mut();
    s.ev.push(fin);
    lines.push_str(&json!({"fate": fate, "loc": c["loc"], "ev": s.ev}).to_string());
    lines.push('\n');
}

/// harness pipeline TABLES TEXTS INPUT TRACE OUT: every case is run twice on one decoder,
/// then with the library's two decoding components
pub fn pipeline(t: &Tables, texts: &str, input: &str, trace: &str, out: &str) {
    let rep = Report::default();
    let stock = Rc::new(Stock::new(t, texts));
    let mut lines = String::new();
    for c in read_cases(input) {
        let shared: Shared = Default::default();
        let mut b = DecoderBuilder::new();
        b.prepare(Box::new(Part(shared.clone())));
        b.detect(Box::new(Part(shared.clone())));
        b.qr(Box::new(Part(shared.clone())), Box::new(Part(shared.clone())));
        let d: Decoder<Source, Prepared, String> = b.build();
        for round in 0..2u64 {
            {
                let mut s = shared.borrow_mut();
                s.ev.clear();
                s.next = 0;
                s.src = c["src"].as_u64().unwrap() + round;
                s.locs = ints(&c["loc"]).into_iter().map(|x| x as u64).collect();
                s.fate = c["fate"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
            }
            let r = guarded(|| d.decode(&Source(c["src"].as_u64().unwrap() + round)));
            let mut s = match shared.try_borrow_mut() {
                Ok(s) => s,
                Err(_) => panic!("component still in use"),
            };
            let fin = match &r {
                Ok(rs) => json!(["return", rs.iter().map(result).collect::<Vec<_>>()]),
                Err(p) => json!(["panic", p]),
            };
            s.ev.push(fin);
            rep.eval();
            lines.push_str(&json!({"fate": c["fate"], "loc": c["loc"], "ev": s.ev}).to_string());
            lines.push('\n');
        }
        real(&|| QRDecoder::new(), &|s: &String| s.clone(), &stock, &c, &mut lines);
        real(&|| QRDecoderWithInfo::new(), &|s: &(String, QRInfo)| s.0.clone(), &stock, &c, &mut lines);
        rep.eval();
        rep.eval();
    }
    std::fs::write(trace, lines).expect("trace");
    rep.write(out);
}

// ------------------------------------------------------------------- builder

type Log = Rc<RefCell<Vec<(&'static str, i64)>>>;
struct Tagged(i64, Log);

// components without any real work
impl Prepare<Source, Prepared> for Tagged {
    fn prepare(&self, input: &Source) -> Prepared {
        self.1.borrow_mut().push(("prepare", self.0));
        Prepared(input.0)
    }
}
impl Detect<Prepared> for Tagged {
    fn detect(&self, _: &Prepared) -> Vec<Location> {
        self.1.borrow_mut().push(("detect", self.0));
        vec![Location::QR(location(3))]
    }
}
impl Extract<Prepared, QRLocation, QRData, QRError> for Tagged {
    fn extract(&self, _: &Prepared, _: QRLocation) -> Result<QRData, QRError> {
        self.1.borrow_mut().push(("extract", self.0));
        Ok(QRData::new(vec![], 1))
    }
}
impl Decode<QRData, String, QRError> for Tagged {
    fn decode(&self, _: Result<QRData, QRError>) -> Result<String, QRError> {
        self.1.borrow_mut().push(("decode", self.0));
        Ok(String::new())
    }
}
// components standing in for the default ones: real work plus a visible mark
fn mark_prepared(tag: i64, img: &RgbaImage) -> GrayImage {
    let mut g = BlockedMean::new(5, 7).prepare(img);
    for x in 0..16 {
        g.put_pixel(x, 0, Luma([if (tag >> (x % 8)) & 1 == 1 { 0 } else { 255 }]));
    }
    g
}
fn mark_detected(tag: i64, g: &GrayImage) -> Vec<Location> {
    let mut l = LineScan::new().detect(g);
    l.push(Location::QR(location(tag as u64 + 20)));
    l
}
impl Prepare<RgbaImage, GrayImage> for Tagged {
    fn prepare(&self, input: &RgbaImage) -> GrayImage {
        self.1.borrow_mut().push(("prepare", self.0));
        mark_prepared(self.0, input)
    }
}
thread_local! { static SEEN: RefCell<Vec<u64>> = RefCell::new(vec![]); }
fn digest(g: &GrayImage) -> u64 {
    g.as_raw().iter().fold(u64::from(g.width()) << 20 ^ u64::from(g.height()), |a, b| {
        (a ^ u64::from(*b)).wrapping_mul(0x100000001b3).rotate_left(5)
    })
}
impl Detect<GrayImage> for Tagged {
    fn detect(&self, g: &GrayImage) -> Vec<Location> {
        self.1.borrow_mut().push(("detect", self.0));
        SEEN.with(|s| s.borrow_mut().push(digest(g)));
        mark_detected(self.0, g)
    }
}
impl Extract<GrayImage, QRLocation, QRData, QRError> for Tagged {
    fn extract(&self, g: &GrayImage, l: QRLocation) -> Result<QRData, QRError> {
        self.1.borrow_mut().push(("extract", self.0));
        SEEN.with(|s| s.borrow_mut().push(digest(g) ^ l.top_left.x.to_bits() ^ u64::from(l.version)));
        QRExtractor::new().extract(g, l)
    }
}
struct TaggedDecode(i64, Log);
impl Decode<QRData, String, QRError> for TaggedDecode {
    fn decode(&self, d: Result<QRData, QRError>) -> Result<String, QRError> {
        self.1.borrow_mut().push(("decode", self.0));
        QRDecoder::new().decode(d).map(|s| format!("{}|{}", s, self.0))
    }
}
impl Decode<QRData, (String, QRInfo), QRError> for TaggedDecode {
    fn decode(&self, d: Result<QRData, QRError>) -> Result<(String, QRInfo), QRError> {
        self.1.borrow_mut().push(("decode", self.0));
        QRDecoderWithInfo::new().decode(d).map(|(s, i)| (format!("{}|{}", s, self.0), i))
    }
}

/// the tag of the last component of a kind that was seen to work; None: none of ours
fn tag(log: &Log, kind: &str) -> Option<i64> {
    let l = log.borrow();
    let tags: Vec<i64> = l.iter().filter(|e| e.0 == kind).map(|e| e.1).collect();
    match tags.first() {
        None => None,
        Some(t) if tags.iter().all(|x| x == t) => Some(*t),
        _ => Some(-2), // two components of a kind worked
    }
}

fn show<R: std::fmt::Debug>(r: Vec<Result<R, Error>>) -> Vec<String> {
    r.into_iter().map(|x| match x { Ok(s) => format!("ok {:?}", s), Err(e) => format!("err {}", e) }).collect()
}

/// what components composed by hand give, for tags (100 = default)
fn by_hand<R: std::fmt::Debug>(img: &RgbaImage, p: i64, d: i64, x: i64, dec: &dyn Fn(Result<QRData, QRError>) -> Result<R, QRError>) -> (Vec<String>, Vec<u64>) {
    SEEN.with(|s| s.borrow_mut().clear());
    let g = if p == 100 { BlockedMean::new(5, 7).prepare(img) } else { mark_prepared(p, img) };
    let quiet: Log = Default::default();
    let locs = if d == 100 { LineScan::new().detect(&g) } else { Tagged(d, quiet.clone()).detect(&g) };
    let out = locs
        .into_iter()
        .map(|Location::QR(l)| {
            let e = if x == 100 { QRExtractor::new().extract(&g, l) } else { Tagged(x, quiet.clone()).extract(&g, l) };
            match dec(e) {
                Ok(s) => format!("ok {:?}", s),
                Err(e) => format!("err {}", e),
            }
        })
        .collect();
    (out, SEEN.with(|s| s.borrow().clone()))
}

fn probe<R: std::fmt::Debug>(
    d: &Decoder<RgbaImage, GrayImage, R>,
    img: &RgbaImage,
    log: &Log,
    real: &dyn Fn(Result<QRData, QRError>) -> Result<R, QRError>,
    tagged: &dyn Fn(i64, Result<QRData, QRError>) -> Result<R, QRError>,
) -> [i64; 4] {
    log.borrow_mut().clear();
    SEEN.with(|s| s.borrow_mut().clear());
    let got = match guarded(|| d.decode(img)) {
        Ok(r) => show(r),
        Err(p) => vec![p],
    };
    let seen = SEEN.with(|s| s.borrow().clone());
    let t = ["prepare", "detect", "extract", "decode"].map(|k| tag(log, k).unwrap_or(100));
    let hand = guarded(|| by_hand(img, t[0], t[1], t[2], &|x| if t[3] == 100 { real(x) } else { tagged(t[3], x) }));
    let (want, want_seen) = hand.unwrap_or_default();
    if got == want && seen == want_seen {
        t
    } else {
        [-1; 4] // the components that did not show up are not the default ones
    }
}

/// harness builder TABLES INPUT TEXTS TRACE OUT
pub fn builder(t: &Tables, input: &str, texts: &str, trace: &str, out: &str) {
    let rep = Report::default();
    let img = {
        let c = read_json(&format!("{}/text-2-1.json", texts));
        let e = read_json(&format!("{}/text-1-3.json", texts));
        let mut img = RgbaImage::from_pixel(240, 150, image::Rgba([255, 255, 255, 255]));
        draw_plain(&mut img, &crate::symbol::clean(t, 2, 1, 3, &bytes(&c[0]["data"])), 4, 16, 20);
        let mut bad = crate::symbol::clean(t, 1, 3, 5, &bytes(&e[0]["data"]));
        for i in 0..90 {
            let k = t.v(1).order[i * 2];
            bad.m[k] ^= 1;
        }
        draw_plain(&mut img, &bad, 4, 140, 30);
        img
    };
    let log: Log = Default::default();
    let plain = |x| QRDecoder::new().decode(x);
    let plain_t = |k: i64, x| QRDecoder::new().decode(x).map(|s: String| format!("{}|{}", s, k));
    let inf = |x| QRDecoderWithInfo::new().decode(x);
    let inf_t = |k: i64, x| QRDecoderWithInfo::new().decode(x).map(|(s, i): (String, QRInfo)| (format!("{}|{}", s, k), i));
    let mut lines = String::new();
    let mut push = |start: &str, sets: &[(String, i64)], fin: Value| {
        let mut ev: Vec<Value> = sets.iter().map(|(s, k)| json!(["set", s, k])).collect();
        ev.push(fin);
        rep.eval();
        lines.push_str(&json!({"start": start, "ev": ev}).to_string());
        lines.push('\n');
    };
    let fin = |r: Result<[i64; 4], String>| match r {
        Ok(t) => json!(["build", "decoder", t[0], t[1], t[2], t[3]]),
        Err(_) => json!(["build", "panic"]),
    };
    for c in read_cases(input) {
        let start = c["start"].as_str().unwrap();
        let sets: Vec<(String, i64)> =
            c["sets"].as_array().unwrap().iter().map(|e| (e[0].as_str().unwrap().to_string(), u(&e[1]) as i64)).collect();
        let mk = |k: i64| Box::new(Tagged(k, log.clone()));
        let r = match start {
            "new" => {
                let mut b: DecoderBuilder<Source, Prepared, String> = DecoderBuilder::new();
                for (s, k) in &sets {
                    match s.as_str() {
                        "prepare" => b.prepare(mk(*k)),
                        "detect" => b.detect(mk(*k)),
                        _ => b.qr(mk(*k), mk(*k)),
                    };
                }
                guarded(|| b.build()).map(|d| {
                    log.borrow_mut().clear();
                    let _ = guarded(|| d.decode(&Source(5)));
                    ["prepare", "detect", "extract", "decode"].map(|k| tag(&log, k).unwrap_or(-1))
                })
            }
            "default" => {
                let mut b = default_builder::<RgbaImage>();
                for (s, k) in &sets {
                    match s.as_str() {
                        "prepare" => b.prepare(mk(*k)),
                        "detect" => b.detect(mk(*k)),
                        _ => b.qr(mk(*k), Box::new(TaggedDecode(*k, log.clone()))),
                    };
                }
                guarded(|| b.build()).map(|d| probe(&d, &img, &log, &plain, &plain_t))
            }
            _ => {
                let mut b = default_builder_with_info::<RgbaImage>();
                for (s, k) in &sets {
                    match s.as_str() {
                        "prepare" => b.prepare(mk(*k)),
                        "detect" => b.detect(mk(*k)),
                        _ => b.qr(mk(*k), Box::new(TaggedDecode(*k, log.clone()))),
                    };
                }
                guarded(|| b.build()).map(|d| probe(&d, &img, &log, &inf, &inf_t))
            }
        };
        push(start, &sets, fin(r));
    }
    push("default", &[], fin(guarded(|| default_decoder::<RgbaImage>()).map(|d| probe(&d, &img, &log, &plain, &plain_t))));
    push("default_info", &[], fin(guarded(|| default_decoder_with_info::<RgbaImage>()).map(|d| probe(&d, &img, &log, &inf, &inf_t))));
    std::fs::write(trace, lines).expect("trace");
    rep.write(out);
}
