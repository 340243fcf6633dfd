//! Histories of calls on real components, written as traces for TraceHistory.tla:
//! events <<what, shown, result, how>>.
use crate::paint::{paint, Painted};
use crate::report::*;
use crate::scene::Texts;
use crate::symbols::u;
use crate::tables::*;
use bardecoder::decode::{Decode, QRDecoder, QRDecoderWithInfo};
use bardecoder::detect::{Detect, LineScan, Location};
use bardecoder::extract::{Extract, QRExtractor};
use bardecoder::prepare::{BlockedMean, Prepare};
use bardecoder::util::qr::{QRData, QRError, QRInfo, QRLocation};
use bardecoder::util::Point;
use bardecoder::Decoder;
use image::{DynamicImage, FlatSamples, GenericImageView, GrayImage, ImageBuffer, Luma, LumaA, Rgb, Rgba, RgbaImage, SubImage};
use serde_json::{json, Value};
use std::fmt::Debug;
use std::io::Write;
use std::sync::Mutex;

fn hash(b: &[u8]) -> String {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ u64::from(*x)).wrapping_mul(0x100000001b3);
    }
    format!("{:016x}", h)
}
/// a result as a short string: the start of it, and a hash of all of it
fn digest(s: &str) -> String {
    let start: String = s.chars().take(40).map(|c| if c.is_ascii_graphic() && c != '"' && c != '\\' { c } else { '.' }).collect();
    format!("{}#{}", start, hash(s.as_bytes()))
}
fn outcome<T: Debug, E: ToString>(r: &[Result<T, E>]) -> String {
    let all: Vec<String> = r.iter().map(|x| match x { Ok(t) => format!("ok {:?}", t), Err(e) => format!("err {}", e.to_string()) }).collect();
    digest(&format!("{}:{}", all.len(), all.join("|")))
}
fn gray_digest(g: &GrayImage) -> String {
    format!("{}x{}#{}", g.width(), g.height(), hash(g.as_raw()))
}
fn copy_loc(l: &Location) -> QRLocation {
    let Location::QR(l) = l;
    let p = |p: &Point| Point { x: p.x, y: p.y };
    QRLocation { top_left: p(&l.top_left), top_right: p(&l.top_right), bottom_left: p(&l.bottom_left), module_size: l.module_size, version: l.version }
}
fn copy_data(d: &QRData) -> QRData {
    QRData { data: d.data.clone(), version: d.version, side: d.side }
}
fn extracted_digest(r: &[Result<QRData, QRError>]) -> String {
    let all: Vec<String> = r.iter().map(|x| match x {
        Ok(d) => format!("ok {} {} {} {}", d.version, d.side, d.data.len(), hash(&d.data)),
        Err(e) => format!("err {}", e),
    }).collect();
    digest(&format!("{}:{}", all.len(), all.join("|")))
}

/// A set of components, made once and used for many calls.
struct Set<D> {
    plain: Decoder<D, GrayImage, String>,
    info: Decoder<D, GrayImage, (String, QRInfo)>,
    prepare: BlockedMean,
    detect: LineScan,
    extract: QRExtractor,
    read: QRDecoder,
    readinfo: QRDecoderWithInfo,
}
/// what the stages of a picture get as input
struct Input {
    prepared: GrayImage,
    locations: Vec<QRLocation>,
    extracted: Vec<Result<QRData, QRError>>,
}
pub const WHATS: [&str; 7] = ["plain", "info", "prepare", "detect", "extract", "read", "readinfo"];

impl<D: GenericImageView<Pixel = Rgba<u8>>> Set<D> {
    fn new() -> Set<D> {
        Set {
            plain: bardecoder::default_decoder(),
            info: bardecoder::default_decoder_with_info(),
            prepare: BlockedMean::new(5, 7),
            detect: LineScan::new(),
            extract: QRExtractor::new(),
            read: QRDecoder::new(),
            readinfo: QRDecoderWithInfo::new(),
        }
    }
    fn input(&self, img: &D) -> Input {
        let prepared = self.prepare.prepare(img);
        let locations: Vec<QRLocation> = self.detect.detect(&prepared).iter().map(copy_loc).collect();
        let extracted = locations.iter().map(|l| self.extract.extract(&prepared, copy_loc(&Location::QR(copy_q(l))))).collect();
        Input { prepared, locations, extracted }
    }
    fn call(&self, what: &str, img: &D, i: Option<&Input>) -> String {
        let given = |f: &dyn Fn(&Input) -> String| i.map(f).unwrap_or_else(|| "panic before".to_string());
        let copies = |i: &Input| -> Vec<Result<QRData, QRError>> {
            i.extracted.iter().map(|x| match x { Ok(d) => Ok(copy_data(d)), Err(e) => Err(e.clone()) }).collect()
        };
        guarded(|| match what {
            "plain" => outcome(&self.plain.decode(img)),
            "info" => outcome(&self.info.decode(img)),
            "prepare" => gray_digest(&self.prepare.prepare(img)),
            "detect" => given(&|i| digest(&format!("{:?}", self.detect.detect(&i.prepared)))),
            "extract" => given(&|i| {
                let r: Vec<_> = i.locations.iter().map(|l| self.extract.extract(&i.prepared, copy_q(l))).collect();
                extracted_digest(&r)
            }),
            "read" => given(&|i| outcome(&copies(i).into_iter().map(|d| self.read.decode(d)).collect::<Vec<_>>())),
            "readinfo" => given(&|i| outcome(&copies(i).into_iter().map(|d| self.readinfo.decode(d)).collect::<Vec<_>>())),
            w => panic!("unknown call {}", w),
        })
        .unwrap_or_else(|p| if p.contains("unknown call") { std::process::exit(3) } else { "panic".to_string() })
    }
}
fn copy_q(l: &QRLocation) -> QRLocation {
    let p = |p: &Point| Point { x: p.x, y: p.y };
    QRLocation { top_left: p(&l.top_left), top_right: p(&l.top_right), bottom_left: p(&l.bottom_left), module_size: l.module_size, version: l.version }
}

fn fresh_input<D: GenericImageView<Pixel = Rgba<u8>> + Sync>(img: &D) -> Option<Input> {
    std::thread::scope(|s| s.spawn(|| guarded(|| Set::new().input(img)).ok()).join().unwrap())
}

/// harness fresh TABLES TEXTS POOL K OUT: the results for picture K in a process that has done nothing else
pub fn fresh(t: &Tables, texts: &str, pool: &str, k: usize, what: &str, out: &str) {
    let p = paint(t, &Texts::load(texts), &read_cases(pool)[k]).rgba();
    let i = if what == "plain" || what == "info" || what == "prepare" { None } else { fresh_input(&p) };
    std::fs::write(out, Set::new().call(what, &p, i.as_ref())).expect("write");
}

fn line(f: &Mutex<std::fs::File>, name: &str, ev: &[Value]) {
    writeln!(f.lock().unwrap(), "{}", json!({"name": name, "ev": ev})).expect("write trace");
}

/// harness history TABLES TEXTS POOL SCHEDULES TRACE OUT
pub fn history(t: &Tables, texts: &str, pool: &str, schedules: &str, trace: &str, out: &str) {
    let pictures: Vec<RgbaImage> = {
        let texts = Texts::load(texts);
        read_cases(pool).iter().map(|c| paint(t, &texts, c).rgba()).collect()
    };
    let args: Vec<String> = std::env::args().collect();
    let cases = read_cases(schedules);
    let rep = Report::default();
    let f = Mutex::new(std::fs::File::create(trace).expect("trace"));
    // what every call gives on its own: one process per call
    let base = Mutex::new(vec![]);
    parallel(pictures.len() * WHATS.len(), out, &rep, 120, |k| {
        let (pic, what) = (k / WHATS.len(), WHATS[k % WHATS.len()]);
        let file = format!("{}.{}", out, k);
        let st = std::process::Command::new(&args[0])
            .args(["fresh", &args[2], &args[3], &args[4], &pic.to_string(), what, &file])
            .stderr(std::process::Stdio::null())
            .status()
            .expect("start");
        let r = if st.success() { std::fs::read_to_string(&file).expect("result") } else { format!("died {:?}", st.code()) };
        let _ = std::fs::remove_file(&file);
        base.lock().unwrap().push((k, json!([what, pic + 1, r, "fresh process"])));
    });
    let mut base = base.into_inner().unwrap();
    base.sort_by_key(|b| b.0);
    let base: Vec<Value> = base.into_iter().map(|b| b.1).collect();
    line(&f, "fresh", &base);
    rep.count("different_results", base.iter().map(|b| b[2].to_string() + &b[0].to_string()).collect::<std::collections::HashSet<_>>().len() as u64);
    let inputs: Vec<Option<Input>> = pictures.iter().map(fresh_input).collect();
    let run = |sets: &[Set<RgbaImage>], step: &Value, how: &str| {
        let (who, what, pic) = (u(&step[0]) - 1, step[1].as_str().unwrap(), u(&step[2]) - 1);
        rep.eval();
        let r = sets[who].call(what, &pictures[pic], inputs[pic].as_ref());
        json!([what, pic + 1, r, how])
    };
    for (k, c) in cases.iter().enumerate() {
        let name = c["name"].as_str().unwrap();
        let steps = c["steps"].as_array().unwrap();
        let mut ev = vec![];
        if c["par"].as_bool().unwrap() {
            let shares: Vec<Vec<Value>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..8)
                    .map(|th| {
                        let run = &run;
                        s.spawn(move || {
                            let sets = [Set::new(), Set::new()];
                            steps.iter().skip(th).step_by(8).map(|x| run(&sets, x, &format!("{} thread {}", name, th))).collect::<Vec<_>>()
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            ev.extend(shares.into_iter().flatten());
            rep.count("calls_in_parallel_histories", steps.len() as u64);
        } else {
            let sets = [Set::new(), Set::new()];
            ev.extend(steps.iter().map(|x| run(&sets, x, name)));
            rep.count("calls_in_sequential_histories", steps.len() as u64);
        }
        line(&f, name, &ev);
        if k % 40 == 3 {
            rep.sample(|| json!({"name": name, "calls": &ev[..ev.len().min(6)]}));
        }
    }
    rep.count("distinct", cases.iter().map(|c| c["steps"].to_string()).collect::<std::collections::HashSet<_>>().len() as u64);
    rep.write(out);
}

// ------------------------------------------------------------------ containers

/// a user-defined view that computes its pixels
struct Own<'a> {
    pixels: &'a dyn Fn(u32, u32) -> Rgba<u8>,
    w: u32,
    h: u32,
    origin: (u32, u32),
}
impl GenericImageView for Own<'_> {
    type Pixel = Rgba<u8>;
    fn dimensions(&self) -> (u32, u32) {
        (self.w, self.h)
    }
    fn bounds(&self) -> (u32, u32, u32, u32) {
        (self.origin.0, self.origin.1, self.w, self.h)
    }
    fn get_pixel(&self, x: u32, y: u32) -> Rgba<u8> {
        assert!(x < self.w && y < self.h, "pixel {} {} outside of the view", x, y);
        (self.pixels)(x, y)
    }
}

fn results<D: GenericImageView<Pixel = Rgba<u8>>>(d: &D, pic: usize, how: &str) -> Vec<Value> {
    let s = Set::new();
    ["plain", "info", "prepare"].iter().map(|w| json!([w, pic, s.call(w, d, None), how])).collect()
}

/// harness containers TABLES TEXTS POOL DIR TRACE OUT: DIR holds colours.json and reps.json
pub fn containers(t: &Tables, texts: &str, pool: &str, dir: &str, trace: &str, out: &str) {
    let texts = Texts::load(texts);
    let pictures: Vec<Painted> = read_cases(pool).iter().map(|c| paint(t, &texts, c)).collect();
    let reps = read_cases(&format!("{}/reps.json", dir));
    let colours: Vec<Vec<[u8; 3]>> = read_json(&format!("{}/colours.json", dir))
        .as_array().unwrap().iter()
        .map(|g| g.as_array().unwrap().iter().map(|c| { let c = bytes(c); [c[0], c[1], c[2]] }).collect())
        .collect();
    let code = pictures[0].rgba();
    let rep = Report::default();
    let lines = Mutex::new(vec![]);
    parallel(pictures.len(), out, &rep, 600, |p| {
        let pic = &pictures[p];
        let mut ev = results(&pic.rgba(), p + 1, "opaque gray RGBA buffer");
        for r in &reps {
            rep.eval();
            let (w, h) = (pic.w as u32, pic.h as u32);
            let n = |k: &str| u(&r[k]) as u32;
            let seed = u64::from(n("seed"));
            let noise = |x: u32, y: u32| (Rng::new(seed * 1_000_003 + u64::from(y) * 4099 + u64::from(x)).next() >> 20) as u32;
            let (alpha, around, mixed) = (r["alpha"].as_str().unwrap(), r["around"].as_str().unwrap(), n("mixed") == 1);
            let transparency = |x: u32, y: u32| -> u8 {
                match alpha {
                    "opaque" => 255,
                    "clear" => 0,
                    "half" => 128,
                    "checker" => if (x / 3 + y / 3) % 2 == 0 { 0 } else { 255 },
                    _ => noise(x, y) as u8,
                }
            };
            let gray = |x: u32, y: u32| pic.gray[(y * w + x) as usize];
            let pixel = |x: u32, y: u32| {
                let c = if mixed { { let of = &colours[gray(x, y) as usize]; of[(noise(x, y) >> 8) as usize % of.len()] } } else { [gray(x, y); 3] };
                Rgba([c[0], c[1], c[2], transparency(x, y)])
            };
            let outside = |x: u32, y: u32| {
                let g = match around {
                    "white" => 255,
                    "black" => 0,
                    "noise" => if noise(x, y) % 2 == 0 { 0 } else { 255 },
                    "finder" => [0, 255, 0, 0, 0, 255, 0, 255][((x / 4 + y / 4) % 8) as usize],
                    _ => code.get_pixel(x % code.width(), y % code.height())[0],
                };
                Rgba([g, g, g, transparency(x, y)])
            };
            // the parent picture, and where the view starts
            let (dx, dy) = (n("dx"), n("dy"));
            let parent = || RgbaImage::from_fn(dx + w + n("right"), dy + h + n("below"), |x, y| {
                if x >= dx && x < dx + w && y >= dy && y < dy + h { pixel(x - dx, y - dy) } else { outside(x, y) }
            });
            let direct = || RgbaImage::from_fn(w, h, pixel);
            let kind = r["kind"].as_str().unwrap();
            let how = r.to_string();
            ev.extend(match kind {
                "rgba" => results(&direct(), p + 1, &how),
                "dynamic" => results(&DynamicImage::ImageRgba8(direct()), p + 1, &how),
                "view" => results(&*SubImage::new(&parent(), dx, dy, w, h), p + 1, &how),
                "viewview" => {
                    let b = parent();
                    let outer = SubImage::new(&b, 0, dy, dx + w, h);
                    let inner = SubImage::new(&*outer, dx, 0, w, h);
                    results(&*inner, p + 1, &how)
                }
                "mutview" => {
                    let mut b = parent();
                    let v = SubImage::new(&mut b, dx, dy, w, h);
                    results(&*v, p + 1, &how)
                }
                "dynview" => {
                    let b = DynamicImage::ImageRgba8(parent());
                    results(&*SubImage::new(&b, dx, dy, w, h), p + 1, &how)
                }
                "custom" => results(&Own { pixels: &pixel, w, h, origin: (dx, dy) }, p + 1, &how),
                "flat" => {
                    let b = parent();
                    let stride = b.width() as usize * 4;
                    let at = dy as usize * stride + dx as usize * 4;
                    let mut samples = b.into_raw();
                    let samples: Vec<u8> = samples.split_off(at.min(samples.len()));
                    let f = FlatSamples {
                        samples,
                        layout: image::flat::SampleLayout { channels: 4, channel_stride: 1, width: w, width_stride: 4, height: h, height_stride: stride },
                        color_hint: None,
                    };
                    match f.as_view::<Rgba<u8>>() {
                        Ok(v) => results(&v, p + 1, &how),
                        Err(_) => vec![],
                    }
                }
                // containers without colours or transparency of their own
                "rgb8" => results(&DynamicImage::ImageRgb8(ImageBuffer::from_fn(w, h, |x, y| { let c = pixel(x, y); Rgb([c[0], c[1], c[2]]) })), p + 1, &how),
                "luma8" => results(&DynamicImage::ImageLuma8(ImageBuffer::from_fn(w, h, |x, y| Luma([gray(x, y)]))), p + 1, &how),
                "lumaa8" => results(&DynamicImage::ImageLumaA8(ImageBuffer::from_fn(w, h, |x, y| LumaA([gray(x, y), transparency(x, y)]))), p + 1, &how),
                "luma16" => results(&DynamicImage::ImageLuma16(ImageBuffer::from_fn(w, h, |x, y| Luma([u16::from(gray(x, y)) * 257]))), p + 1, &how),
                "rgba16" => results(&DynamicImage::ImageRgba16(ImageBuffer::from_fn(w, h, |x, y| {
                    let c = pixel(x, y);
                    Rgba([u16::from(c[0]) * 257, u16::from(c[1]) * 257, u16::from(c[2]) * 257, u16::from(c[3]) * 257])
                })), p + 1, &how),
                k => panic!("unknown kind {}", k),
            });
        }
        rep.count("views", reps.len() as u64);
        lines.lock().unwrap().push((p, ev));
    });
    let mut lines = lines.into_inner().unwrap();
    lines.sort_by_key(|l| l.0);
    let f = Mutex::new(std::fs::File::create(trace).expect("trace"));
    for (p, ev) in &lines {
        line(&f, &format!("picture {}", p + 1), ev);
        if p % 10 == 0 {
            rep.sample(|| json!({"picture": p + 1, "calls": &ev[..ev.len().min(6)]}));
        }
    }
    rep.count("distinct", (pictures.len() * reps.len()) as u64);
    rep.write(out);
}

// -------------------------------------------------------------- twin builds

/// harness stages TABLES TEXTS INPUT HOW TRACE OUT: all stages of every picture; INPUT is a list of
/// directories, each with a step: dir:3 is every third case of dir
pub fn stages(t: &Tables, texts: &str, input: &str, how: &str, trace: &str, out: &str) {
    let texts = Texts::load(texts);
    let cases: Vec<Value> = input
        .split(',')
        .flat_map(|d| {
            let (d, n) = d.split_once(':').expect("directory:step");
            read_cases(d).into_iter().step_by(n.parse().unwrap())
        })
        .collect();
    if std::env::var("HARNESS_LOG").is_ok() {
        log::set_logger(&Sink).expect("logger");
        log::set_max_level(log::LevelFilter::Trace);
    }
    let rep = Report::default();
    let lines = Mutex::new(vec![]);
    parallel(cases.len(), out, &rep, 300, |k| {
        let c = &cases[k];
        let p = paint(t, &texts, c);
        rep.eval();
        let name = c["name"].as_str().unwrap();
        let s = Set::new();
        let ev: Vec<Value> = if c.get("tl").is_some() {
            let l = crate::paint::location(c);
            let g = p.luma();
            let r = guarded(|| extracted_digest(&[s.extract.extract(&g, l)])).unwrap_or_else(|_| "panic".to_string());
            vec![json!(["extract", name, r, how])]
        } else {
            let img = p.rgba();
            let i = guarded(|| s.input(&img)).ok();
            WHATS.iter().map(|w| json!([w, name, s.call(w, &img, i.as_ref()), how])).collect()
        };
        lines.lock().unwrap().push((k, name.to_string(), ev));
    });
    let mut lines = lines.into_inner().unwrap();
    lines.sort_by_key(|l| l.0);
    let f = Mutex::new(std::fs::File::create(trace).expect("trace"));
    for (k, name, ev) in &lines {
        line(&f, name, ev);
        if k % 50 == 3 {
            rep.sample(|| json!(ev));
        }
    }
    rep.count("distinct", cases.len() as u64);
    rep.write(out);
}

/// a logger that takes and formats everything
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        std::hint::black_box(format!("{}", r.args()));
    }
    fn flush(&self) {}
}
