//! Configurations of the algorithms under test: a serialisable description, and the construction
//! of the real objects from it.
use crate::rng::Rng;
use crate::tables;
use hash_roll::buzhash::{BuzHashHash, BuzHashTableBufHash, BuzHashTableByteSaltHash, BuzHashTableHash};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;
use std::ops::Bound;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Table {
    Published,
    /// independent random entries
    Random(u8),
    /// entries with few bits set: fingerprints match masks often
    Sparse(u8),
    /// all entries equal
    Flat(u8),
    /// half of the entries zero
    Half(u8),
    /// borgbackup's, seeded (gear: random entries)
    Borg(u32),
}

impl Table {
    fn entry(&self, i: usize) -> u64 {
        match self {
            Table::Published => unreachable!(),
            Table::Borg(s) => Rng::new(0xb0_0000_0000 + *s as u64 * 1024 + i as u64).next(),
            Table::Random(s) => Rng::new(0x5eed_0000 + *s as u64 * 1024 + i as u64).next(),
            Table::Sparse(s) => {
                let mut r = Rng::new(0x5ba7_0000 + *s as u64 * 1024 + i as u64);
                r.next() & r.next() & r.next()
            }
            Table::Flat(s) => Rng::new(0xf1a7 + *s as u64).next() | 1,
            Table::Half(s) => {
                let mut r = Rng::new(0x4a1f_0000 + *s as u64 * 1024 + i as u64);
                let v = r.next();
                if r.next() & 1 == 0 { 0 } else { v }
            }
        }
    }
    pub fn buz(&self) -> [u32; 256] {
        let mut t = [0; 256];
        for (i, e) in t.iter_mut().enumerate() {
            *e = match self {
                Table::Published => tables::BUZ[i],
                Table::Borg(s) => tables::BORG[i] ^ s,
                o => o.entry(i) as u32,
            };
        }
        t
    }
    pub fn gear64(&self) -> [u64; 256] {
        let mut t = [0; 256];
        for (i, e) in t.iter_mut().enumerate() {
            *e = match self {
                Table::Published => tables::GEAR64[i],
                o => o.entry(i),
            };
        }
        t
    }
}

thread_local! {
    static BUZ_T: RefCell<HashMap<Table, &'static [u32; 256]>> = RefCell::new(HashMap::new());
    static GEAR_T: RefCell<HashMap<Table, &'static [u64; 256]>> = RefCell::new(HashMap::new());
}

/// The table handed to the implementation: the repository's own one for `Published`.
pub fn impl_buz(t: &Table) -> &'static [u32; 256] {
    BUZ_T.with(|m| {
        *m.borrow_mut().entry(t.clone()).or_insert_with(|| match t {
            Table::Published => Box::leak(Box::new(hash_roll::buzhash_table::GO_BUZHASH)),
            Table::Borg(s) => Box::leak(hash_roll::buzhash_table::borg_buzhash_table(*s)),
            o => Box::leak(Box::new(o.buz())),
        })
    })
}
pub fn impl_gear64(t: &Table) -> &'static [u64; 256] {
    GEAR_T.with(|m| {
        *m.borrow_mut().entry(t.clone()).or_insert_with(|| match t {
            Table::Published => &hash_roll::gear_table::GEAR_64,
            o => Box::leak(Box::new(o.gear64())),
        })
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum HKind {
    Borrowed,
    Owned,
    Salted,
}

/// The one hasher type the checks instantiate `BuzHash` with: it delegates to the crate's three
/// implementations (so those are what is tested) and counts how often it is called.
#[derive(Clone, Debug)]
pub enum AnyHash {
    B(BuzHashTableHash<'static>),
    O(BuzHashTableBufHash),
    S(BuzHashTableByteSaltHash<'static>),
}
thread_local! { pub static HASH_CALLS: std::cell::Cell<u64> = std::cell::Cell::new(0); }
impl BuzHashHash for AnyHash {
    #[inline]
    fn hash(&self, data: u8) -> u32 {
        HASH_CALLS.with(|c| c.set(c.get() + 1));
        match self {
            AnyHash::B(h) => h.hash(data),
            AnyHash::O(h) => h.hash(data),
            AnyHash::S(h) => h.hash(data),
        }
    }
}
pub fn mk_hash(t: &Table, k: HKind, salt: u8) -> AnyHash {
    match k {
        HKind::Borrowed => AnyHash::B(BuzHashTableHash::from(impl_buz(t))),
        HKind::Owned => AnyHash::O(BuzHashTableBufHash::from(Box::new(*impl_buz(t)))),
        HKind::Salted => AnyHash::S(BuzHashTableByteSaltHash::from((salt, impl_buz(t)))),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Bd {
    Inc(u64),
    Exc(u64),
    Unb,
}
impl Bd {
    pub fn std(&self) -> Bound<u64> {
        match self {
            Bd::Inc(x) => Bound::Included(*x),
            Bd::Exc(x) => Bound::Excluded(*x),
            Bd::Unb => Bound::Unbounded,
        }
    }
    pub fn min_ok(&self) -> u64 {
        match self {
            Bd::Inc(x) => *x,
            Bd::Exc(x) => x.saturating_add(1),
            Bd::Unb => 0,
        }
    }
    pub fn max_ok(&self) -> Option<u64> {
        match self {
            Bd::Inc(x) => Some(*x),
            Bd::Exc(x) => Some(x.saturating_sub(1)),
            Bd::Unb => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Cfg {
    BupDefault,
    Bup { window: usize },
    /// the ready-made noms configuration
    BuzNom { salt: u8 },
    Buz { k: usize, mask: u32, table: Table, kind: HKind, salt: u8, max: u64 },
    FastDefault,
    Fast { table: Table, min: u64, normal: u64, max: u64 },
    GearDefault,
    Gear { log2: usize },
    GzipDefault,
    Gzip { window: usize, modulus: u64 },
    MiiDefault,
    Mii { w: u64 },
    PigzDefault,
    Pigz { bits: u8 },
    Ram { w: u64 },
    ZpaqDefault,
    ZpaqPow2 { n: u8 },
    ZpaqMax { max: u64 },
    ZpaqRange { lo: Bd, hi: Bd },
    ZpaqAvg { n: u8, lo: Bd, hi: Bd },
    ZstdDefault,
    Zstd { size: u64 },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Alg {
    Bup,
    Buz,
    Fast,
    Gear,
    Gzip,
    Mii,
    Pigz,
    Ram,
    Zpaq,
    Zstd,
}
pub const ALGS: [Alg; 10] =
    [Alg::Bup, Alg::Buz, Alg::Fast, Alg::Gear, Alg::Gzip, Alg::Mii, Alg::Pigz, Alg::Ram, Alg::Zpaq, Alg::Zstd];

impl Alg {
    pub fn name(&self) -> &'static str {
        match self {
            Alg::Bup => "bup",
            Alg::Buz => "buzhash",
            Alg::Fast => "fastcdc",
            Alg::Gear => "gear",
            Alg::Gzip => "gzip",
            Alg::Mii => "mii",
            Alg::Pigz => "pigz",
            Alg::Ram => "ram",
            Alg::Zpaq => "zpaq",
            Alg::Zstd => "zstd",
        }
    }
}

impl Cfg {
    pub fn alg(&self) -> Alg {
        use Cfg::*;
        match self {
            BupDefault | Bup { .. } => Alg::Bup,
            BuzNom { .. } | Buz { .. } => Alg::Buz,
            FastDefault | Fast { .. } => Alg::Fast,
            GearDefault | Gear { .. } => Alg::Gear,
            GzipDefault | Gzip { .. } => Alg::Gzip,
            MiiDefault | Mii { .. } => Alg::Mii,
            PigzDefault | Pigz { .. } => Alg::Pigz,
            Ram { .. } => Alg::Ram,
            ZpaqDefault | ZpaqPow2 { .. } | ZpaqMax { .. } | ZpaqRange { .. } | ZpaqAvg { .. } => Alg::Zpaq,
            ZstdDefault | Zstd { .. } => Alg::Zstd,
        }
    }
    /// Look-back: how many bytes before the next one may still matter (beyond O(1) state).
    pub fn window(&self) -> usize {
        match self {
            Cfg::BupDefault => 64,
            Cfg::Bup { window } => *window,
            Cfg::BuzNom { .. } => 67,
            Cfg::Buz { k, .. } => *k,
            Cfg::GzipDefault => 8192,
            Cfg::Gzip { window, .. } => *window,
            Cfg::ZstdDefault | Cfg::Zstd { .. } => 32,
            _ => 0,
        }
    }
    /// Is the content condition for a cut one of more than 14 bits?
    pub fn hard(&self) -> bool {
        match self {
            Cfg::Buz { mask, .. } => mask.count_ones() > 14,
            Cfg::Gear { log2 } => *log2 > 14,
            Cfg::Pigz { bits } => *bits > 14,
            Cfg::ZstdDefault | Cfg::Zstd { .. } => true,
            _ => false,
        }
    }
    /// The documented size range of complete chunks.
    pub fn limits(&self) -> (u64, Option<u64>) {
        match self {
            Cfg::BuzNom { .. } => (1, Some((1 << 24) + 1)),
            Cfg::Buz { max, .. } => (1, Some(max.saturating_add(1))),
            Cfg::FastDefault => (2048, Some(65536)),
            Cfg::Fast { min, max, .. } => ((*min).max(1), Some(*max)),
            Cfg::Ram { w } => ((*w).max(1), None),
            Cfg::ZpaqDefault => (4096, Some(520192)),
            Cfg::ZpaqPow2 { n } => (64u64 << (n - 10), Some(8128u64 << (n - 10))),
            Cfg::ZpaqMax { max } => ((max / 64).max(1), Some(*max)),
            Cfg::ZpaqRange { lo, hi } | Cfg::ZpaqAvg { lo, hi, .. } => (lo.min_ok().max(1), hi.max_ok()),
            _ => (1, None),
        }
    }
    /// Rough number of bytes between cuts, used to scale generated data.
    pub fn scale(&self) -> usize {
        match self {
            Cfg::BupDefault | Cfg::Bup { .. } => 96,
            Cfg::BuzNom { .. } => 128,
            Cfg::FastDefault => 256,
            Cfg::GearDefault => 128,
            Cfg::GzipDefault | Cfg::PigzDefault => 128,
            Cfg::ZpaqDefault => 512,
            Cfg::Zstd { .. } | Cfg::ZstdDefault => 8,
            _ => 4,
        }
    }
}

/// Runs `$body` with `$c` bound to the configured algorithm (a concrete type).
#[macro_export]
macro_rules! with_alg {
    ($cfg:expr, $c:ident => $body:expr) => {{
        use $crate::cfg::Cfg as __C;
        #[allow(unused_variables)]
        match $cfg {
            __C::BupDefault => { let $c = hash_roll::bup::RollSum::default(); $body }
            __C::Bup { window } => { let $c = hash_roll::bup::RollSum::with_window(*window); $body }
            __C::BuzNom { salt } => { let $c = hash_roll::buzhash::BuzHash::new_nom(*salt); $body }
            __C::Buz { k, mask, table, kind, salt, max } => {
                let $c = hash_roll::buzhash::BuzHash::new(*k, *mask, $crate::cfg::mk_hash(table, *kind, *salt), *max);
                $body
            }
            __C::FastDefault => { let $c = hash_roll::fastcdc::FastCdc::default(); $body }
            __C::Fast { table, min, normal, max } => {
                let $c = hash_roll::fastcdc::FastCdc::new($crate::cfg::impl_gear64(table), *min, *normal, *max);
                $body
            }
            __C::GearDefault => { let $c = hash_roll::gear::Gear32::default(); $body }
            __C::Gear { log2 } => { let $c = hash_roll::gear::Gear32::with_average_size_log2(*log2); $body }
            __C::GzipDefault => { let $c = hash_roll::gzip::GzipRsyncable::default(); $body }
            __C::Gzip { window, modulus } => {
                let $c = hash_roll::gzip::GzipRsyncable::with_window_and_modulus(*window, *modulus);
                $body
            }
            __C::MiiDefault => { let $c = hash_roll::mii::Mii::default(); $body }
            __C::Mii { w } => { let $c = hash_roll::mii::Mii::with_w(*w); $body }
            __C::PigzDefault => { let $c = hash_roll::pigz::PigzRsyncable::default(); $body }
            __C::Pigz { bits } => { let $c = hash_roll::pigz::PigzRsyncable::with_bits(*bits); $body }
            __C::Ram { w } => { let $c = hash_roll::ram::Ram::with_w(*w); $body }
            __C::ZpaqDefault => { let $c = hash_roll::zpaq::Zpaq::default(); $body }
            __C::ZpaqPow2 { n } => { let $c = hash_roll::zpaq::Zpaq::with_average_size_pow_2(*n); $body }
            __C::ZpaqMax { max } => { let $c = hash_roll::zpaq::Zpaq::with_max_size(*max); $body }
            __C::ZpaqRange { lo, hi } => { let $c = hash_roll::zpaq::Zpaq::with_range((lo.std(), hi.std())); $body }
            __C::ZpaqAvg { n, lo, hi } => {
                let $c = hash_roll::zpaq::Zpaq::with_average_and_range(*n, (lo.std(), hi.std()));
                $body
            }
            __C::ZstdDefault => { let $c = hash_roll::zstd::Zstd::default(); $body }
            __C::Zstd { size } => { let $c = hash_roll::zstd::Zstd::with_target_section_size(*size); $body }
        }
    }};
}
