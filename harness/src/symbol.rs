//! Assembles a symbol from data codewords by interpreting the exported tables.
use crate::tables::Tables;

/// module colours, 1 = dark, row major
#[derive(Clone)]
pub struct Matrix {
    pub version: u32,
    pub side: usize,
    pub m: Vec<u8>,
}

impl Matrix {
    /// pixels as QRData stores them (0 = dark, 255 = light)
    pub fn pixels(&self) -> Vec<u8> {
        self.m.iter().map(|b| if *b == 1 { 0 } else { 255 }).collect()
    }
    pub fn at(&self, x: usize, y: usize) -> u8 {
        self.m[y * self.side + x]
    }
}

pub fn parity(t: &Tables, data: &[u8], ec: usize) -> Vec<u8> {
    let g = &t.gen[ec - 1];
    let mut rem = vec![0u8; ec];
    for d in data {
        let f = d ^ rem[0];
        rem.rotate_left(1);
        rem[ec - 1] = 0;
        for i in 0..ec {
            rem[i] ^= t.mul(f, g[i]);
        }
    }
    rem
}

/// data codewords (whole symbol) -> blocks with parity
pub fn blocks(t: &Tables, v: u32, l: usize, data: &[u8]) -> Vec<Vec<u8>> {
    let lv = &t.v(v).levels[l - 1];
    let mut at = 0;
    let mut out = vec![];
    for b in 0..lv.total.len() {
        let mut blk = data[at..at + lv.data[b]].to_vec();
        at += lv.data[b];
        let p = parity(t, &blk, lv.ec);
        blk.extend(p);
        out.push(blk);
    }
    assert_eq!(at, data.len());
    out
}

/// blocks -> matrix; `fmt` = the two 15-bit format words to draw
pub fn assemble(t: &Tables, v: u32, l: usize, mask: usize, blocks: &[Vec<u8>], fmt: (u32, u32)) -> Matrix {
    let tv = t.v(v);
    let lv = &tv.levels[l - 1];
    let mut m: Vec<u8> = tv.dark.iter().map(|d| u8::from(*d == 1)).collect();
    let mk = &t.masks[mask];
    for (k, idx) in tv.order.iter().enumerate() {
        let bit = if k / 8 < lv.interleave.len() {
            let (b, p) = lv.interleave[k / 8];
            (blocks[b][p] >> (7 - k % 8)) & 1
        } else {
            0
        };
        let (x, y) = (idx % tv.side, idx / tv.side);
        m[*idx] = bit ^ mk[(y % 12) * 12 + x % 12];
    }
    for i in 0..15 {
        m[tv.fmt1[i]] = ((fmt.0 >> i) & 1) as u8;
        m[tv.fmt2[i]] = ((fmt.1 >> i) & 1) as u8;
    }
    Matrix { version: v, side: tv.side, m }
}

pub fn clean(t: &Tables, v: u32, l: usize, mask: usize, data: &[u8]) -> Matrix {
    let f = t.formats[l - 1][mask];
    assemble(t, v, l, mask, &blocks(t, v, l, data), (f, f))
}
