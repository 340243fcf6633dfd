//! The QR tables exported by TLC from spec/QRStd.tla. The harness contains none of its own.
use serde_json::Value;
use std::path::Path;

pub struct Level {
    pub ec: usize,
    pub cap: usize,
    pub total: Vec<usize>,
    pub data: Vec<usize>,
    pub interleave: Vec<(usize, usize)>,
}
pub struct Version {
    pub version: u32,
    pub side: usize,
    pub order: Vec<usize>,
    pub dark: Vec<u8>,
    pub fmt1: Vec<usize>,
    pub fmt2: Vec<usize>,
    pub levels: Vec<Level>,
}
pub struct Tables {
    pub exp: Vec<u8>,
    pub log: Vec<usize>,
    pub gen: Vec<Vec<u8>>,
    pub masks: Vec<Vec<u8>>,
    pub formats: Vec<Vec<u32>>,
    pub versions: Vec<Version>,
}

pub fn ints(v: &Value) -> Vec<usize> {
    v.as_array()
        .expect("array")
        .iter()
        .map(|x| x.as_u64().expect("nat") as usize)
        .collect()
}
pub fn bytes(v: &Value) -> Vec<u8> {
    ints(v).into_iter().map(|x| x as u8).collect()
}
fn read(p: &Path) -> Value {
    serde_json::from_str(&std::fs::read_to_string(p).expect("table file")).expect("json")
}

impl Tables {
    pub fn load(dir: &str) -> Tables {
        let dir = Path::new(dir);
        let c = read(&dir.join("common.json"));
        let mut versions = vec![];
        for v in 1..=40u32 {
            let j = read(&dir.join(format!("v{}.json", v)));
            versions.push(Version {
                version: v,
                side: j["side"].as_u64().unwrap() as usize,
                order: ints(&j["order"]),
                dark: bytes(&j["dark"]),
                fmt1: ints(&j["fmt1"]),
                fmt2: ints(&j["fmt2"]),
                levels: j["levels"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|l| Level {
                        ec: l["ec"].as_u64().unwrap() as usize,
                        cap: l["cap"].as_u64().unwrap() as usize,
                        total: ints(&l["total"]),
                        data: ints(&l["data"]),
                        interleave: l["interleave"]
                            .as_array()
                            .unwrap()
                            .iter()
                            .map(|p| {
                                let p = ints(p);
                                (p[0] - 1, p[1] - 1)
                            })
                            .collect(),
                    })
                    .collect(),
            });
        }
        Tables {
            exp: bytes(&c["exp"]),
            log: ints(&c["log"]),
            gen: c["gen"].as_array().unwrap().iter().map(bytes).collect(),
            masks: c["masks"].as_array().unwrap().iter().map(bytes).collect(),
            formats: c["formats"]
                .as_array()
                .unwrap()
                .iter()
                .map(|l| ints(l).into_iter().map(|x| x as u32).collect())
                .collect(),
            versions,
        }
    }
    pub fn v(&self, v: u32) -> &Version {
        &self.versions[v as usize - 1]
    }
    pub fn mul(&self, a: u8, b: u8) -> u8 {
        if a == 0 || b == 0 {
            0
        } else {
            self.exp[self.log[a as usize - 1] + self.log[b as usize - 1]]
        }
    }
}
