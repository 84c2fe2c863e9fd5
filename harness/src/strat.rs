//! Generators (proptest strategies) of configurations, streams and call schedules.
use crate::cfg::*;
use crate::data::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub cfg: Cfg,
    pub mult: u32,
    pub streams: Vec<Recipe>,
    pub plans: Vec<Plan>,
    pub knobs: Vec<u32>,
}

impl Case {
    pub fn cap(&self) -> usize {
        if self.mult >= crate::giant::HUGE { 40_000_000 } else if self.mult > 1 { 1_300_000 } else { 24_000 }
    }
    pub fn data(&self, i: usize) -> Vec<u8> {
        expand(&self.streams[i], &self.cfg, self.cap(), if self.mult >= crate::giant::HUGE || self.mult == 2 { 1 } else { self.mult })
    }
    pub fn knob(&self, i: usize) -> usize {
        self.knobs[i] as usize
    }
}

fn table() -> BoxedStrategy<Table> {
    prop_oneof![
        3 => Just(Table::Published),
        2 => (0u8..8).prop_map(Table::Random),
        2 => (0u8..8).prop_map(Table::Sparse),
        2 => (0u8..8).prop_map(Table::Half),
        1 => (0u8..8).prop_map(Table::Flat),
        1 => select(vec![0u32, 1, 0x8000_0000, 0xffff_ffff, 0x1234_5678, 255, 256, 0xdead_beef]).prop_map(Table::Borg),
    ]
    .boxed()
}

fn window() -> BoxedStrategy<usize> {
    prop_oneof![
        4 => 1usize..=12,
        4 => 1usize..=70,
        3 => select(vec![1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 67, 96, 127, 128, 129]),
        1 => 70usize..=300,
        1 => select(vec![255, 256, 257, 511, 512, 1000, 1024, 4095, 8192]),
    ]
    .boxed()
}

fn buz_mask() -> BoxedStrategy<u32> {
    prop_oneof![
        6 => (1u32..=9).prop_map(|b| (1u32 << b) - 1),
        2 => (1u32..=6, 0u32..=24).prop_map(|(b, s)| ((1u32 << b) - 1) << s),
        2 => (any::<u32>(), any::<u32>(), any::<u32>()).prop_map(|(a, b, c)| a & b & c),
        1 => (10u32..=31, 0u32..=31).prop_map(|(b, s)| ((1u32 << b) - 1).rotate_left(s)),
        1 => select(vec![0u32, 1, 0xfff, 0x7fff, 0xffff_ffff, 0x8000_0000, 0x8000_0001]),
    ]
    .boxed()
}

fn buz() -> BoxedStrategy<Cfg> {
    (
        window(),
        buz_mask(),
        table(),
        select(vec![HKind::Borrowed, HKind::Owned, HKind::Salted, HKind::Salted]),
        prop_oneof![1 => Just(0u8), 3 => any::<u8>()],
        prop_oneof![
            4 => Just(None),
            2 => (0u64..=40).prop_map(Some),
            3 => (0u64..=600).prop_map(Some),
            1 => (600u64..=20_000).prop_map(Some),
            1 => huge().prop_map(Some),
        ],
        0u64..4,
    )
        .prop_map(|(k, mask, table, kind, salt, max, rel)| {
            let max = match (max, rel) {
                (None, 0) => u64::MAX,
                (None, 1) => 1 << 24,
                (None, 2) => k as u64,
                (None, _) => k as u64 * 2 + 1,
                (Some(m), _) => m,
            };
            Cfg::Buz { k, mask, table, kind, salt, max }
        })
        .boxed()
}

/// sizes far beyond any buffer, around the widths of the integer types
fn huge() -> BoxedStrategy<u64> {
    (select(vec![16u32, 31, 32, 33, 40, 53, 58, 62, 63]), -2i64..=2, any::<bool>())
        .prop_map(|(b, d, top)| if top { u64::MAX - (d + 2) as u64 } else { (1u64 << b).wrapping_add(d as u64) })
        .boxed()
}

fn fast() -> BoxedStrategy<Cfg> {
    let sizes = prop_oneof![
        6 => (1u64..=40, 0u64..=120, 0u64..=200),
        3 => (1u64..=200, 0u64..=600, 0u64..=1500),
        1 => (1u64..=2000, 0u64..=6000, 0u64..=9000),
        1 => (1u64..=20, 0u64..=60, Just(0u64)),
        1 => (1u64..=30, 0u64..=90, Just(1u64)),
    ];
    prop_oneof![
        20 => (table(), sizes).prop_map(|(table, (min, normal, extra))| Cfg::Fast { table, min, normal, max: min + extra }),
        1 => (table(), 1u64..60, prop_oneof![0u64..200, huge()], huge()).prop_map(|(table, min, normal, max)| Cfg::Fast { table, min, normal, max }),
    ]
    .boxed()
}

fn bd(lo: u64, hi: u64) -> BoxedStrategy<Bd> {
    prop_oneof![
        3 => (lo..=hi).prop_map(Bd::Inc),
        2 => (lo..=hi).prop_map(Bd::Exc),
        1 => Just(Bd::Unb),
    ]
    .boxed()
}

fn range() -> BoxedStrategy<(Bd, Bd)> {
    prop_oneof![
        12 => near_range(),
        1 => (bd(0, 150), huge(), any::<bool>()).prop_map(|(lo, hi, inc)| (lo, if inc { Bd::Inc(hi) } else { Bd::Exc(hi) })),
        1 => (huge(), any::<bool>()).prop_map(|(lo, inc)| (if inc || lo > u64::MAX - 2 { Bd::Inc(lo) } else { Bd::Exc(lo) }, Bd::Unb)),
    ]
    .boxed()
}

fn near_range() -> BoxedStrategy<(Bd, Bd)> {
    (bd(0, 150), bd(0, 300), any::<bool>())
        .prop_map(|(lo, hi, rel)| {
            // the range has to contain a size of at least one byte
            let need = lo.min_ok().max(1);
            let hi = match hi {
                Bd::Inc(x) => Bd::Inc(if rel || x < need { need + x } else { x }),
                Bd::Exc(x) => Bd::Exc(if rel || x <= need { need + 1 + x } else { x }),
                Bd::Unb => Bd::Unb,
            };
            (lo, hi)
        })
        .boxed()
}

pub fn cfg_of(alg: Alg) -> BoxedStrategy<Cfg> {
    match alg {
        Alg::Bup => prop_oneof![2 => Just(Cfg::BupDefault), 7 => window().prop_map(|window| Cfg::Bup { window })].boxed(),
        Alg::Buz => prop_oneof![1 => any::<u8>().prop_map(|salt| Cfg::BuzNom { salt }), 9 => buz()].boxed(),
        Alg::Fast => prop_oneof![1 => Just(Cfg::FastDefault), 9 => fast()].boxed(),
        Alg::Gear => prop_oneof![
            1 => Just(Cfg::GearDefault),
            7 => (1usize..=8).prop_map(|log2| Cfg::Gear { log2 }),
            2 => (9usize..=16).prop_map(|log2| Cfg::Gear { log2 }),
            1 => (17usize..=31).prop_map(|log2| Cfg::Gear { log2 }),
        ]
        .boxed(),
        Alg::Gzip => prop_oneof![
            1 => Just(Cfg::GzipDefault),
            9 => (
                window(),
                prop_oneof![
                    4 => 1u64..=64,
                    4 => 1u64..=1000,
                    2 => (0u32..=13).prop_map(|b| 1u64 << b),
                    1 => select(vec![4096u64, 65536, 1 << 33, u64::MAX]),
                ]
            )
                .prop_map(|(window, modulus)| Cfg::Gzip { window, modulus }),
        ]
        .boxed(),
        Alg::Mii => prop_oneof![
            2 => Just(Cfg::MiiDefault),
            8 => (1u64..=7).prop_map(|w| Cfg::Mii { w }),
            1 => prop_oneof![Just(0u64), 8u64..=300, huge()].prop_map(|w| Cfg::Mii { w }),
        ]
        .boxed(),
        Alg::Pigz => prop_oneof![
            2 => Just(Cfg::PigzDefault),
            7 => (0u8..=10).prop_map(|bits| Cfg::Pigz { bits }),
            2 => (11u8..=17).prop_map(|bits| Cfg::Pigz { bits }),
            1 => (18u8..=31).prop_map(|bits| Cfg::Pigz { bits }),
        ]
        .boxed(),
        Alg::Ram => prop_oneof![
            4 => (0u64..=12).prop_map(|w| Cfg::Ram { w }),
            4 => (0u64..=150).prop_map(|w| Cfg::Ram { w }),
            1 => (150u64..=5000).prop_map(|w| Cfg::Ram { w }),
            1 => prop_oneof![select(vec![255u64, 256, 257, 65535, 65536, 1 << 20]), huge()].prop_map(|w| Cfg::Ram { w }),
        ]
        .boxed(),
        Alg::Zpaq => prop_oneof![
            1 => Just(Cfg::ZpaqDefault),
            2 => (10u8..=14).prop_map(|n| Cfg::ZpaqPow2 { n }),
            1 => (15u8..=32).prop_map(|n| Cfg::ZpaqPow2 { n }),
            3 => (1u64..=3000).prop_map(|max| Cfg::ZpaqMax { max }),
            1 => huge().prop_map(|max| Cfg::ZpaqMax { max }),
            1 => (3000u64..=600_000).prop_map(|max| Cfg::ZpaqMax { max }),
            6 => range().prop_map(|(lo, hi)| Cfg::ZpaqRange { lo, hi }),
            9 => (1u8..=12, range()).prop_map(|(n, (lo, hi))| Cfg::ZpaqAvg { n, lo, hi }),
            3 => (prop_oneof![4 => 13u8..=32, 1 => Just(32u8)], range()).prop_map(|(n, (lo, hi))| Cfg::ZpaqAvg { n, lo, hi }),
        ]
        .boxed(),
        Alg::Zstd => prop_oneof![
            2 => Just(Cfg::ZstdDefault),
            5 => (1u64 << 20..1 << 22).prop_map(|size| Cfg::Zstd { size }),
            3 => (0u32..=9, 0u64..1 << 20).prop_map(|(b, x)| Cfg::Zstd { size: (1u64 << (20 + b)) + (x << b.min(3)) }),
            2 => (10u32..=31, 0u64..1 << 20, any::<bool>()).prop_map(|(b, x, top)| Cfg::Zstd { size: if top { (2u64 << (20 + b)) - 1 - x } else { (1u64 << (20 + b)) + x } }),
        ]
        .boxed(),
    }
}

pub fn op(unit_small: bool) -> BoxedStrategy<Op> {
    let l = if unit_small { 40u32 } else { 160 };
    prop_oneof![
        2 => vec(any::<u8>(), 0..12).prop_map(Op::Lit),
        4 => (any::<u64>(), 0..l, any::<bool>()).prop_map(|(seed, len, scaled)| Op::Rand { seed, len, scaled }),
        1 => (any::<u64>(), 0..l, any::<u8>(), any::<u8>()).prop_map(|(seed, len, a, b)| Op::Small { seed, len, a, b }),
        2 => (prop_oneof![Just(0u8), Just(255), any::<u8>()], 0..l, any::<bool>()).prop_map(|(b, len, scaled)| Op::Rep { b, len, scaled }),
        1 => (vec(any::<u8>(), 1..6), 0..l).prop_map(|(pat, len)| Op::Period { pat, len }),
        1 => (any::<u8>(), prop_oneof![Just(1u8), Just(255), any::<u8>()], 0..l).prop_map(|(start, step, len)| Op::Ramp { start, step, len }),
        6 => (any::<u64>(), vec(prop_oneof![3 => 0u16..6, 3 => 0u16..80, 1 => 0u16..400], 1..5)).prop_map(|(seed, gaps)| Op::Steer { seed, gaps }),
        1 => (any::<u64>(), 1u8..4).prop_map(|(seed, d)| Op::Twin { seed, d }),
        2 => (any::<u64>(), 0..l * 2, any::<bool>()).prop_map(|(seed, len, scaled)| Op::NoCut { seed, len, scaled }),
        2 => (any::<u64>(), any::<bool>(), -2i8..4).prop_map(|(seed, max, delta)| Op::ToLimit { seed, max, delta }),
        1 => (any::<u64>(), prop_oneof![1 => 4u8..=32, 1 => Just(32u8)]).prop_map(|(seed, n)| Op::Early { seed, n }),
        1 => (0u32..600, 0..l).prop_map(|(back, len)| Op::Copy { back, len }),
    ]
    .boxed()
}

pub fn recipe(max_ops: usize) -> BoxedStrategy<Recipe> {
    prop_oneof![3 => vec(op(true), 1..=max_ops), 2 => vec(op(false), 1..=max_ops)].boxed()
}

pub fn plan() -> BoxedStrategy<Plan> {
    prop_oneof![
        1 => Just(Plan::Whole),
        3 => Just(Plan::Ones),
        3 => (1u16..80).prop_map(Plan::Fixed),
        4 => vec(prop_oneof![3 => 0u16..6, 3 => 0u16..100, 1 => 0u16..2000], 1..12).prop_map(Plan::List),
        5 => vec((0u8..6, -3i8..4, any::<bool>()), 1..8).prop_map(Plan::Around),
    ]
    .boxed()
}

#[derive(Clone)]
pub struct Shape {
    pub algs: Vec<Alg>,
    pub streams: usize,
    pub ops: usize,
    pub plans: usize,
    pub knobs: usize,
    /// out of 1000 cases, how many are big
    pub big: u32,
}
impl Shape {
    pub fn new(algs: &[Alg]) -> Shape {
        Shape { algs: algs.to_vec(), streams: 1, ops: 6, plans: 2, knobs: 8, big: 8 }
    }
    pub fn streams(mut self, n: usize) -> Self {
        self.streams = n;
        self
    }
    pub fn plans(mut self, n: usize) -> Self {
        self.plans = n;
        self
    }
    pub fn ops(mut self, n: usize) -> Self {
        self.ops = n;
        self
    }
    pub fn knobs(mut self, n: usize) -> Self {
        self.knobs = n;
        self
    }
    pub fn big(mut self, n: u32) -> Self {
        self.big = n;
        self
    }
}

pub fn any_cfg(algs: &[Alg]) -> BoxedStrategy<Cfg> {
    proptest::strategy::Union::new(algs.iter().map(|a| cfg_of(*a)).collect::<Vec<_>>()).boxed()
}

pub fn case(s: &Shape) -> BoxedStrategy<Case> {
    let mult = if s.big == 0 {
        Just(1u32).boxed()
    } else {
        prop_oneof![1000 - s.big => Just(1u32), s.big => select(vec![16u32, 64, 256, 1024])].boxed()
    };
    (
        any_cfg(&s.algs),
        mult,
        vec(recipe(s.ops), s.streams),
        vec(plan(), s.plans),
        vec(0u32..100_000, s.knobs),
        (0u32..3, sixteen(), any::<u64>()),
    )
        .prop_map(|(cfg, mult, streams, plans, knobs, (big, n, x))| {
            let cfg = if mult > 1 && big > 0 { enlarge(cfg, n, x) } else { cfg };
            Case { cfg, mult, streams, plans, knobs }
        })
        .boxed()
}

/// sizes around and above 16 bits
fn sixteen() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => 65_533u64..=65_539,
        2 => 65_540u64..=65_700,
        2 => 66_000u64..=140_000,
        1 => select(vec![100_003u64, 131_071, 131_072, 131_073, 196_608, 262_144]),
    ]
    .boxed()
}

/// Big cases: the same configuration with a window or size beyond 16 bits.
fn enlarge(c: Cfg, n: u64, x: u64) -> Cfg {
    match c {
        Cfg::BupDefault | Cfg::Bup { .. } => Cfg::Bup { window: n as usize },
        // rare enough cuts that chunks outgrow the window
        Cfg::Gzip { .. } | Cfg::GzipDefault => Cfg::Gzip { window: n as usize, modulus: if x & 1 == 0 { 10_000 + (x >> 1) % 100_000 } else { 1 << (13 + (x >> 1) % 20) } },
        Cfg::Buz { mask, table, kind, salt, max, .. } => Cfg::Buz {
            k: n as usize,
            mask: if mask.count_ones() < 14 { 0x3fff << (x % 18) | mask } else { mask },
            table,
            kind,
            salt,
            max: if max < n / 2 { n + max } else { max },
        },
        Cfg::Ram { .. } => Cfg::Ram { w: n - x % 3 },
        Cfg::Fast { table, min, normal, max } => match x % 3 {
            0 => Cfg::Fast { table, min: n, normal: n + normal % 1000, max: n.saturating_add(max % 100_000) },
            1 => Cfg::Fast { table, min, normal: n, max: min.saturating_add(2 * n) },
            _ => Cfg::Fast { table, min: min.min(n), normal: normal.min(n), max: n },
        },
        Cfg::ZpaqAvg { n: a, .. } => {
            let lo = if x % 3 == 0 { Bd::Inc(x >> 8 & 0xfff) } else { Bd::Inc(n) };
            Cfg::ZpaqAvg { n: a, lo, hi: if x & 64 == 0 { Bd::Inc(n + (x >> 32) % 1000) } else { Bd::Exc(2 * n) } }
        }
        o => o,
    }
}
