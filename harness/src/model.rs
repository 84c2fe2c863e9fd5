//! Reference models, written from the documentation and the published algorithms.
//!
//! They are definitional: a decision is computed from the bytes of the chunk (or, for zstd, of
//! the stream) through closed formulas and prefix sums, not by the rolling updates the
//! implementation uses.
use crate::cfg::{Bd, Cfg, HKind, Table};
use crate::tables;

pub const MASK_S: u64 = 0x0003590703530000;
pub const MASK_L: u64 = 0x0000d90003530000;
pub const ZSTD_PRIME: u64 = 0xCF1BBCDCB7A56463;

/// How FastCDC's two interfaces place a cut that was found by hash (the repository's own tests pin both):
/// the search ends the chunk after the matching byte, the incremental chunker before it.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Search,
    Incr,
}

#[derive(Clone, Debug)]
pub(crate) enum Kind {
    Bup { w: usize },
    Buz { k: usize, mask: u32, max: u64, t: Box<[u32; 256]> },
    Fast { t: Box<[u64; 256]>, min: u64, normal: u64, max: u64 },
    Gear { mask: u32 },
    Gzip { w: usize, m: u64 },
    Mii { w: u64 },
    Pigz { bits: u32 },
    Ram { w: u64 },
    Zpaq { min: u64, max: Option<u64>, thr: u64 },
    Zstd { mask: u64 },
}

#[derive(Clone, Debug)]
pub struct Model {
    pub(crate) kind: Kind,
    mode: Mode,
    /// bytes of the current chunk
    pub chunk: Vec<u8>,
    /// prefix data over the current chunk (meaning depends on the algorithm), p[n] covers n bytes
    p0: Vec<u64>,
    p1: Vec<u64>,
    /// zstd: whole stream
    stream: Vec<u8>,
    // zpaq: order-1 state of the chunk
    h: u32,
    c1: u8,
    o1: [u8; 256],
}

fn zpaq_power_from_max(max: u64) -> u8 {
    // a quarter of the maximum size, rounded down to a power of two
    let q = max / 4;
    if q < 2 { 1 } else { (63 - q.leading_zeros()).min(32) as u8 }
}

pub fn zpaq_params(cfg: &Cfg) -> Option<(u64, Option<u64>, u8)> {
    Some(match cfg {
        Cfg::ZpaqDefault => (4096, Some(520192), 16),
        Cfg::ZpaqPow2 { n } => (64u64 << (n - 10), Some(8128u64 << (n - 10)), *n),
        Cfg::ZpaqMax { max } => (max / 64, Some(*max), zpaq_power_from_max(*max)),
        Cfg::ZpaqAvg { n, lo, hi } => (lo.min_ok(), hi.max_ok(), *n),
        Cfg::ZpaqRange { lo, hi } => {
            let n = match (hi.max_ok(), lo) {
                (Some(m), _) => zpaq_power_from_max(m),
                (None, Bd::Unb) => 16,
                (None, _) => zpaq_power_from_max(lo.min_ok().saturating_mul(64)),
            };
            (lo.min_ok(), hi.max_ok(), n)
        }
        _ => return None,
    })
}

impl Model {
    pub fn new(cfg: &Cfg, mode: Mode) -> Model {
        let salted = |t: &Table, salt: u8| -> Box<[u32; 256]> {
            let b = t.buz();
            let mut o = Box::new([0u32; 256]);
            for i in 0..256 {
                o[i] = b[i ^ salt as usize];
            }
            o
        };
        let gear = |n: usize| Kind::Gear { mask: (((1u64 << n) - 1) << (32 - n)) as u32 };
        let kind = match cfg {
            Cfg::BupDefault => Kind::Bup { w: 64 },
            Cfg::Bup { window } => Kind::Bup { w: *window },
            Cfg::BuzNom { salt } => Kind::Buz { k: 67, mask: 0xfff, max: 1 << 24, t: salted(&Table::Published, *salt) },
            Cfg::Buz { k, mask, table, kind, salt, max } => Kind::Buz {
                k: *k,
                mask: *mask,
                max: *max,
                t: salted(table, if *kind == HKind::Salted { *salt } else { 0 }),
            },
            Cfg::FastDefault => {
                Kind::Fast { t: Box::new(tables::GEAR64), min: 2048, normal: 8192, max: 65536 }
            }
            Cfg::Fast { table, min, normal, max } => {
                Kind::Fast { t: Box::new(table.gear64()), min: *min, normal: *normal, max: *max }
            }
            Cfg::GearDefault => gear(13),
            Cfg::Gear { log2 } => gear(*log2),
            Cfg::GzipDefault => Kind::Gzip { w: 8192, m: 4096 },
            Cfg::Gzip { window, modulus } => Kind::Gzip { w: *window, m: *modulus },
            Cfg::MiiDefault => Kind::Mii { w: 5 },
            Cfg::Mii { w } => Kind::Mii { w: *w },
            Cfg::PigzDefault => Kind::Pigz { bits: 12 },
            Cfg::Pigz { bits } => Kind::Pigz { bits: *bits as u32 },
            Cfg::Ram { w } => Kind::Ram { w: *w },
            Cfg::ZstdDefault => Kind::Zstd { mask: (1 << 23) - 1 },
            Cfg::Zstd { size } => {
                let mb = size >> 20;
                Kind::Zstd { mask: (1u64 << (63 - mb.leading_zeros() + 20)) - 1 }
            }
            z => {
                let (min, max, n) = zpaq_params(z).unwrap();
                Kind::Zpaq { min, max, thr: 1u64 << (32 - n) }
            }
        };
        let mut m = Model {
            kind,
            mode,
            chunk: vec![],
            p0: vec![],
            p1: vec![],
            stream: vec![],
            h: 0,
            c1: 0,
            o1: [0; 256],
        };
        m.restart();
        m
    }

    fn restart(&mut self) {
        self.chunk.clear();
        self.p0.clear();
        self.p1.clear();
        self.p0.push(0);
        self.p1.push(0);
        self.h = 0;
        self.c1 = 0;
        self.o1 = [0; 256];
    }

    /// Checksum of the last window of bytes of the chunk, zero padded (bup only).
    fn bup_digest(&self, w: usize) -> u32 {
        let n = self.chunk.len();
        let lo = n.saturating_sub(w);
        let d0 = self.p0[n].wrapping_sub(self.p0[lo]);
        let d1 = self.p1[n].wrapping_sub(self.p1[lo]);
        // s1 = 31 w + sum c, s2 = 31 w (w-1) + sum (age+1) c   with age 0 the newest byte
        let s1 = 31u64.wrapping_mul(w as u64).wrapping_add(d0) as u32;
        let s2 = 31u64
            .wrapping_mul(w as u64)
            .wrapping_mul(w as u64 - 1)
            .wrapping_add((n as u64).wrapping_mul(d0).wrapping_sub(d1)) as u32;
        (s1 << 16) | (s2 & 0xffff)
    }

    pub fn digest(&self) -> u32 {
        match &self.kind {
            Kind::Bup { w } => self.bup_digest(*w),
            _ => panic!("no digest"),
        }
    }

    fn push(&mut self, b: u8) {
        let n = self.chunk.len() as u64;
        self.chunk.push(b);
        let (l0, l1) = (*self.p0.last().unwrap(), *self.p1.last().unwrap());
        match &self.kind {
            Kind::Bup { .. } => {
                self.p0.push(l0.wrapping_add(b as u64));
                self.p1.push(l1.wrapping_add(n.wrapping_mul(b as u64)));
            }
            Kind::Gzip { .. } => self.p0.push(l0.wrapping_add(b as u64)),
            Kind::Buz { t, .. } => {
                let v = t[b as usize].rotate_right((n % 32) as u32);
                self.p0.push(l0 ^ v as u64);
            }
            Kind::Zstd { .. } => self.stream.push(b),
            Kind::Ram { .. } => self.p0.push(if n == 0 { b as u64 } else { l0.max(b as u64) }),
            _ => {}
        }
    }

    fn pop(&mut self) {
        self.chunk.pop();
        match &self.kind {
            Kind::Bup { .. } => {
                self.p0.pop();
                self.p1.pop();
            }
            Kind::Gzip { .. } | Kind::Buz { .. } | Kind::Ram { .. } => {
                self.p0.pop();
            }
            Kind::Zstd { .. } => {
                self.stream.pop();
            }
            _ => {}
        }
    }

    /// Does the algorithm decide to end a chunk, given the chunk's bytes so far (the last one included)?
    fn decide(&self) -> bool {
        let c = &self.chunk;
        let n = c.len();
        match &self.kind {
            Kind::Bup { w } => self.bup_digest(*w) & 0x1fff == 0x1fff,
            Kind::Buz { k, mask, max, .. } => {
                // xor over the last k bytes of rot^age(h(c)): prefix xors are rotated to position 0
                let lo = n.saturating_sub(*k);
                let x = (self.p0[n] ^ self.p0[lo]) as u32;
                let h = x.rotate_left(((n - 1) % 32) as u32);
                h & mask == *mask || n as u64 > *max
            }
            Kind::Fast { t, min, normal, max } => {
                let i = n as u64 - 1; // index of the newest byte in the chunk
                if n as u64 >= *max && self.mode == Mode::Search {
                    return true;
                }
                if n as u64 > *max {
                    return false;
                }
                if i < *min {
                    return false;
                }
                let lo = (*min as usize).max(n.saturating_sub(64));
                let mut fp = 0u64;
                for (age, b) in c[lo..].iter().rev().enumerate() {
                    fp = fp.wrapping_add(t[*b as usize].wrapping_shl(age as u32));
                }
                fp & (if i < *normal { MASK_S } else { MASK_L }) == 0
            }
            Kind::Gear { mask } => {
                let lo = n.saturating_sub(32);
                let mut fp = 0u32;
                for (age, b) in c[lo..].iter().rev().enumerate() {
                    fp = fp.wrapping_add(tables::GEAR32[*b as usize] << age);
                }
                fp & mask == 0
            }
            Kind::Gzip { w, m } => {
                let lo = n.saturating_sub(*w);
                (self.p0[n] - self.p0[lo]) % m == 0
            }
            Kind::Mii { w } => {
                let w = *w;
                w >= 1 && n as u64 > w && c[n - 1 - w as usize..].windows(2).all(|p| p[1] > p[0])
            }
            Kind::Pigz { bits } => {
                if *bits == 0 {
                    return true;
                }
                let mask = (1u64 << bits) - 1;
                let hit = mask >> 1;
                let mut h = 0u64;
                for (age, b) in c.iter().rev().take(*bits as usize).enumerate() {
                    h ^= (*b as u64) << age;
                }
                if n < 64 {
                    h ^= hit << n;
                }
                h & mask == hit
            }
            Kind::Ram { w } => {
                n as u64 >= w.saturating_add(2) && c[n - 1] as u64 >= self.p0[n - 1]
            }
            Kind::Zpaq { min, max, thr } => {
                let b = c[n - 1];
                let (h, _) = self.zpaq_next(b);
                ((h as u64) < *thr && n as u64 >= *min) || max.map_or(false, |m| n as u64 >= m)
            }
            Kind::Zstd { mask } => {
                if self.stream.len() < 33 {
                    return false;
                }
                let mut h = 0u64;
                for b in &self.stream[self.stream.len() - 32..] {
                    h = h.wrapping_mul(ZSTD_PRIME).wrapping_add(*b as u64 + 10);
                }
                h & mask == *mask
            }
        }
    }

    fn zpaq_next(&self, c: u8) -> (u32, bool) {
        let hit = c == self.o1[self.c1 as usize];
        let m: u32 = if hit { 314159265 } else { 271828182 };
        (self.h.wrapping_add(c as u32).wrapping_add(1).wrapping_mul(m), hit)
    }

    /// zpaq: hash, last byte and table of the current chunk
    pub fn zpaq_state(&self) -> (u32, u8, &[u8; 256]) {
        (self.h, self.c1, &self.o1)
    }

    fn commit(&mut self, b: u8) {
        if let Kind::Zpaq { .. } = self.kind {
            self.h = self.zpaq_next(b).0;
            self.o1[self.c1 as usize] = b;
            self.c1 = b;
        }
    }

    /// Feed one byte. `Some(0)`: the chunk ends after it. `Some(1)`: the chunk ended before it
    /// (and the byte starts the next chunk).
    pub fn step(&mut self, b: u8) -> Option<u8> {
        if self.mode == Mode::Incr {
            if let Kind::Fast { max, .. } = &self.kind {
                let max = *max;
                self.push(b);
                let hit = self.decide();
                if hit {
                    // FastCDC, incremental: the byte that matched opens the next chunk
                    self.restart();
                    self.push(b);
                    if self.decide() {
                        panic!("model: empty chunk");
                    }
                }
                let full = self.chunk.len() as u64 >= max;
                if full {
                    self.restart();
                }
                return match (hit, full) {
                    (false, false) => None,
                    (true, false) => Some(1),
                    (false, true) => Some(0),
                    // a maximum of one byte: nothing is ever examined, so nothing matches
                    (true, true) => panic!("model: two cuts at one byte"),
                };
            }
        }
        self.push(b);
        if self.decide() {
            self.restart();
            Some(0)
        } else {
            self.commit(b);
            None
        }
    }

    /// Would any next byte end the chunk (because of a size limit)?
    pub fn chunk_full(&self) -> bool {
        let n = self.chunk.len() as u64 + 1;
        match &self.kind {
            Kind::Buz { max, .. } => n > *max,
            Kind::Fast { max, .. } => n >= *max,
            Kind::Zpaq { max, .. } => max.map_or(false, |m| n >= m),
            _ => false,
        }
    }

    /// Would feeding `b` next make the algorithm decide to end a chunk?
    pub fn peek(&mut self, b: u8) -> bool {
        self.push(b);
        let r = self.decide();
        self.pop();
        r
    }
}

/// Cut positions of a whole stream. A cut at `p` separates bytes `p-1` and `p`.
pub fn cuts(cfg: &Cfg, data: &[u8], mode: Mode) -> Vec<usize> {
    let mut m = Model::new(cfg, mode);
    let mut out = vec![];
    for (i, b) in data.iter().enumerate() {
        match m.step(*b) {
            Some(0) => out.push(i + 1),
            Some(_) => out.push(i),
            None => {}
        }
    }
    out
}

/// bup's digest of the last `w` of `bytes`, missing ones counting as zero.
pub fn bup_digest_of(bytes: &[u8], w: usize) -> u32 {
    let mut s1 = 31u64 * w as u64;
    let mut s2 = 31u64.wrapping_mul(w as u64).wrapping_mul(w as u64 - 1);
    for (age, b) in bytes.iter().rev().take(w).enumerate() {
        s1 = s1.wrapping_add(*b as u64);
        s2 = s2.wrapping_add((age as u64 + 1) * *b as u64);
    }
    ((s1 as u32) << 16) | (s2 as u32 & 0xffff)
}

pub fn model_params_bits(cfg: &Cfg) -> Option<u32> {
    match Model::new(cfg, Mode::Search).kind {
        Kind::Zstd { mask } => Some(mask.count_ones()),
        _ => None,
    }
}
