//! Deterministic jobs beside the generated cases: very large streams, average sizes, recorded inputs.
use crate::cfg::*;
use crate::data::*;
use crate::drive::*;
use crate::rng::Rng;
use crate::run::Log;
use crate::strat::Case;
use hash_roll::ChunkIncr;

pub const HUGE: u32 = 1 << 20;
/// marks a case with many instances
pub const MANY: u32 = 1 << 21;
/// marks a case of more than 4 GiB
pub const TAIL: u32 = 1 << 22;

fn case(cfg: Cfg, mult: u32, streams: Vec<Recipe>, plans: Vec<Plan>, knobs: Vec<u32>) -> Case {
    Case { cfg, mult, streams, plans, knobs }
}

fn rnd(seed: u64, len: u32) -> Op {
    Op::Rand { seed, len, scaled: false }
}

/// The recorded input on which FastCDC with a minimum of 0 does not get past its first byte.
pub fn fast_min0() -> Case {
    case(
        Cfg::Fast { table: Table::Published, min: 0, normal: 0, max: 64 },
        1,
        vec![vec![Op::Lit(vec![117])], vec![], vec![]],
        vec![Plan::Whole, Plan::Whole],
        vec![0; 24],
    )
}
pub fn is_fast_min0(c: &Case) -> bool {
    let k = fast_min0();
    c.cfg == k.cfg && c.data(0) == [117]
}
pub const KF_MIN0: &str = "fastcdc-min0-no-progress";

pub fn c01_jobs(t: bool, seed: u64) -> Vec<Case> {
    use crate::tail::*;
    let mut v = jobs(&[Alg::Fast, Alg::Gear, Alg::Mii, Alg::Pigz, Alg::Ram], &[SLICES, STRICT], t, seed);
    v.push(fast_min0());
    for mut c in long_chunk_jobs(&ALGS, t, seed) {
        c.streams.push(vec![rnd(seed, 40_000)]);
        v.push(c);
    }
    v
}
pub fn c02_jobs(t: bool, seed: u64) -> Vec<Case> {
    use crate::tail::*;
    let mut v = mixed(&ALGS, &[PUSH_WHOLE, PUSH_REST], t, seed);
    v.extend(long_jobs(t, seed));
    v
}
pub fn c03_jobs(t: bool, seed: u64) -> Vec<Case> {
    use crate::tail::*;
    let mut v = mixed(&ALGS, &[SEARCH_WHOLE, SEARCH_REST], t, seed);
    v.extend(long_jobs(t, seed));
    v
}
pub fn c04_jobs(t: bool, seed: u64) -> Vec<Case> {
    use crate::tail::*;
    let mut v = mixed(&ALGS, &[PUSH_WHOLE, SEARCH_WHOLE, PUSH_MIB, SEARCH_MIB], t, seed);
    v.extend(long_jobs(t, seed));
    v
}
fn with_long(algs: &[Alg], t: bool, seed: u64) -> Vec<Case> {
    let mut v = crate::tail::jobs(algs, &FOUR, t, seed);
    v.extend(long_chunk_jobs(algs, t, seed));
    v
}
const FOUR: [u32; 4] = [0, 1, 2, 3];
pub fn c05_jobs(t: bool, seed: u64) -> Vec<Case> {
    with_long(&[Alg::Bup], t, seed)
}
pub fn c06_jobs(t: bool, seed: u64) -> Vec<Case> {
    let mut v = with_long(&[Alg::Buz], t, seed);
    v.extend(nom_jobs(t, seed));
    v
}
pub fn c07_jobs(t: bool, seed: u64) -> Vec<Case> {
    with_long(&[Alg::Gzip, Alg::Pigz], t, seed)
}
pub fn c08_jobs(t: bool, seed: u64) -> Vec<Case> {
    with_long(&[Alg::Zstd], t, seed)
}
pub fn c10_jobs(t: bool, seed: u64) -> Vec<Case> {
    let mut v = with_long(&[Alg::Gear, Alg::Fast], t, seed);
    v.extend(fast_jobs(t, seed));
    v
}
pub fn c11_jobs(t: bool, seed: u64) -> Vec<Case> {
    with_long(&[Alg::Ram, Alg::Mii], t, seed)
}
pub fn c12_jobs(t: bool, seed: u64) -> Vec<Case> {
    crate::tail::mixed(&[Alg::Bup, Alg::Buz, Alg::Gzip, Alg::Gear, Alg::Pigz, Alg::Zstd], &FOUR, t, seed)
}
pub fn c13_jobs(t: bool, seed: u64) -> Vec<Case> {
    let mut v = fast_jobs(t, seed);
    v.extend(zpaq_jobs(t, seed));
    v.extend(long_chunk_jobs(&ALGS, t, seed));
    for c in &mut v {
        c.streams.push(vec![rnd(seed, 40_000)]);
    }
    v
}
pub fn c14_jobs(t: bool, seed: u64) -> Vec<Case> {
    let mut v = nom_jobs(t, seed);
    v.extend(zpaq_long_jobs(t, seed));
    v.extend(fast_jobs(t, seed));
    v.extend(long_chunk_jobs(&ALGS, t, seed));
    v.extend(zpaq_jobs(t, seed).into_iter().filter(|c| c.mult < HUGE));
    v
}
pub fn c18_jobs(t: bool, seed: u64) -> Vec<Case> {
    let mut v = crate::tail::mixed(&ALGS, &[2, 3, 0, 1, 4, 6, 7], t, seed);
    v.push(fast_min0());
    v
}
/// Streams much longer than any window.
pub fn c19_jobs(thorough: bool, seed: u64) -> Vec<Case> {
    let n = if thorough { 30_000_000 } else { 8_000_000 };
    let mut v: Vec<Case> = vec![];
    for (i, c) in small_cfgs().into_iter().chain([Cfg::Gear { log2: 31 }, Cfg::Pigz { bits: 31 }, Cfg::Mii { w: 200 }, Cfg::Ram { w: 1 << 40 }, Cfg::ZpaqPow2 { n: 30 }, Cfg::GzipDefault]).enumerate() {
        let s = seed.wrapping_mul(77).wrapping_add(i as u64);
        v.push(case(
            c,
            HUGE,
            vec![vec![rnd(s, n), Op::Rep { b: s as u8, len: n / 2, scaled: false }, rnd(s + 1, 9999)]],
            vec![Plan::Fixed(50_021), Plan::Whole],
            vec![s as u32 % 4, 0, 7, 0, 0, 0, 0, 0],
        ));
    }
    v
}

/// noms: chunks that reach the 16 MiB maximum
pub fn nom_jobs(thorough: bool, seed: u64) -> Vec<Case> {
    let n = if thorough { 8 } else { 2 };
    (0..n)
        .map(|i| {
            let s = seed.wrapping_mul(31).wrapping_add(i);
            case(
                Cfg::BuzNom { salt: s as u8 },
                HUGE,
                vec![vec![rnd(s, 3000 + (s % 999) as u32), Op::Rep { b: (s >> 3) as u8, len: (1 << 24) + 3_000_000, scaled: false }, rnd(s + 1, 60_000)]],
                vec![Plan::Fixed(65_521), Plan::Fixed(4096)],
                vec![0, 0, 0, 0, 0, 0, 0, 0],
            )
        })
        .collect()
}

pub fn zpaq_jobs(thorough: bool, seed: u64) -> Vec<Case> {
    let mut v = zpaq_long_jobs(thorough, seed);
    let mut add = |cfg: Cfg, s: u64| {
        v.push(case(
            cfg,
            2,
            vec![vec![
                Op::ToLimit { seed: s, max: false, delta: -1 },
                Op::Steer { seed: s + 1, gaps: vec![0] },
                Op::ToLimit { seed: s + 2, max: true, delta: 3 },
                rnd(s + 3, 150_000),
                Op::ToLimit { seed: s + 4, max: true, delta: -1 },
                rnd(s + 5, 9000),
            ]],
            vec![Plan::Fixed(30_011), Plan::Fixed(8192)],
            vec![0; 8],
        ));
    };
    let reps = if thorough { 6 } else { 1 };
    for r in 0..reps {
        let s = seed.wrapping_mul(1_000_003).wrapping_add(r * 97);
        add(Cfg::ZpaqDefault, s);
        for n in 10..=17 {
            add(Cfg::ZpaqPow2 { n }, s + n as u64);
        }
        for max in [8192u64, 65535, 65536, 100_000, 520_192] {
            add(Cfg::ZpaqMax { max }, s + max);
        }
    }
    v
}

/// zpaq: chunks of several MiB, ended by content and by the maximum.
pub fn zpaq_long_jobs(thorough: bool, seed: u64) -> Vec<Case> {
    let mut v = vec![];
    for r in 0..if thorough { 6 } else { 1 } {
        let s = seed.wrapping_mul(1_000_211).wrapping_add(r * 89);
        for (i, cfg) in [
            Cfg::ZpaqPow2 { n: 18 },
            Cfg::ZpaqPow2 { n: 19 },
            Cfg::ZpaqMax { max: 5_000_000 + s % 1000 },
            Cfg::ZpaqAvg { n: 9, lo: Bd::Inc(1_500_000 + s % 77), hi: Bd::Inc(1_501_000) },
            Cfg::ZpaqAvg { n: 20, lo: Bd::Inc(65_536), hi: Bd::Unb },
        ]
        .into_iter()
        .enumerate()
        {
            let s = s + i as u64;
            v.push(case(
                cfg,
                HUGE,
                vec![vec![rnd(s, 3_000_000), Op::Steer { seed: s + 1, gaps: vec![0] }, Op::ToLimit { seed: s + 2, max: true, delta: 2 }, rnd(s + 3, 2_000_000)]],
                vec![Plan::Fixed(65_521), Plan::Fixed(30_001)],
                vec![0; 8],
            ));
        }
    }
    v
}

/// Long streams for the relations between interfaces and feeds.
pub fn long_jobs(thorough: bool, seed: u64) -> Vec<Case> {
    let mut v = zpaq_long_jobs(thorough, seed);
    v.extend(nom_jobs(thorough, seed));
    v.extend(long_chunk_jobs(&ALGS, thorough, seed));
    v
}

/// Chunks of hundreds of KiB to some MiB, of each of the algorithms given.
pub fn long_chunk_jobs(algs: &[Alg], thorough: bool, seed: u64) -> Vec<Case> {
    let mut v = vec![];
    for r in 0..if thorough { 5 } else { 1 } {
        let s = seed.wrapping_mul(1_000_081).wrapping_add(r * 83);
        let x = s % 997;
        let cfgs = [
            Cfg::BupDefault,
            Cfg::Bup { window: 66_000 + x as usize },
            Cfg::Buz { k: 67, mask: (1 << 18) - 1, table: Table::Published, kind: HKind::Borrowed, salt: 0, max: 3 << 20 },
            Cfg::Buz { k: 65_600 + x as usize, mask: 0xffff << 9, table: Table::Random(s as u8), kind: HKind::Owned, salt: 0, max: u64::MAX },
            Cfg::Fast { table: Table::Published, min: 100_000 + x, normal: 1_000_000, max: 3_000_000 },
            Cfg::Fast { table: Table::Random(s as u8), min: 1000, normal: 2000, max: 200_000 },
            Cfg::Gear { log2: 17 },
            Cfg::Gear { log2: 19 },
            Cfg::Gear { log2: 21 },
            Cfg::Gzip { window: 70_000 + x as usize, modulus: 300_007 },
            Cfg::Gzip { window: 300, modulus: 1 << 15 },
            Cfg::Mii { w: 8 },
            Cfg::Pigz { bits: 17 },
            Cfg::Pigz { bits: 19 },
            Cfg::Pigz { bits: 21 },
            Cfg::Ram { w: 100_000 + x },
            Cfg::Ram { w: 1_000_000 },
            Cfg::ZpaqAvg { n: 18, lo: Bd::Inc(70_000), hi: Bd::Inc(1_400_000) },
            Cfg::Zstd { size: 1 << 20 },
        ];
        for (i, cfg) in cfgs.into_iter().enumerate() {
            if !algs.contains(&cfg.alg()) {
                continue;
            }
            let s = s + 7 * i as u64;
            let more = matches!(cfg, Cfg::Gear { log2: 21 } | Cfg::Pigz { bits: 21 });
            let flat = Op::NoCut { seed: s + 1, len: 90_000, scaled: false };
            v.push(case(
                cfg,
                HUGE,
                vec![vec![rnd(s, 2_500_000), flat, rnd(s + 3, if more { 9_000_000 } else { 2_500_000 })]],
                vec![Plan::Fixed([65_521, 8192, 1][(s % 3) as usize]), Plan::Fixed(50_021)],
                vec![0; 8],
            ));
        }
    }
    v
}

pub fn fast_jobs(thorough: bool, seed: u64) -> Vec<Case> {
    let mut v = vec![];
    let reps = if thorough { 20 } else { 2 };
    for r in 0..reps {
        let s = seed.wrapping_mul(1_000_033).wrapping_add(r * 101);
        for cfg in [
            Cfg::FastDefault,
            Cfg::Fast { table: Table::Random(3), min: 4096, normal: 16384, max: 65536 },
            Cfg::Fast { table: Table::Published, min: 16384, normal: 65536, max: 262_144 },
            Cfg::Fast { table: Table::Published, min: 100, normal: 100_000, max: 100_000 },
            Cfg::GearDefault,
            Cfg::Gear { log2: 16 },
        ] {
            v.push(case(
                cfg,
                2,
                vec![vec![
                    Op::ToLimit { seed: s, max: true, delta: 2 },
                    rnd(s + 3, 120_000),
                    Op::ToLimit { seed: s + 4, max: true, delta: -1 },
                    Op::Steer { seed: s + 6, gaps: vec![0, 3, 60] },
                    rnd(s + 5, 90_000),
                ]],
                vec![Plan::Fixed(30_011), Plan::Fixed(8192)],
                vec![0; 8],
            ));
        }
    }
    v
}

// ---------------------------------------------------------------- many instances

/// Small configurations whose streams cut soon.
fn small_cfgs() -> Vec<Cfg> {
    vec![
        Cfg::BupDefault,
        Cfg::Buz { k: 5, mask: 7, table: Table::Published, kind: HKind::Salted, salt: 3, max: 40 },
        Cfg::Fast { table: Table::Random(3), min: 4, normal: 20, max: 40 },
        Cfg::Gear { log2: 3 },
        Cfg::Gzip { window: 6, modulus: 9 },
        Cfg::Mii { w: 2 },
        Cfg::Pigz { bits: 4 },
        Cfg::Ram { w: 5 },
        Cfg::ZpaqAvg { n: 3, lo: Bd::Inc(3), hi: Bd::Inc(50) },
        Cfg::ZstdDefault,
    ]
}

pub fn many_jobs(thorough: bool, seed: u64) -> Vec<Case> {
    let n = if thorough { 1_000_000 } else { 66_000 };
    small_cfgs()
        .into_iter()
        .map(|c| case(c, MANY, vec![vec![Op::Steer { seed, gaps: vec![3, 9] }, rnd(seed, 20), Op::Steer { seed, gaps: vec![0] }]], vec![Plan::Whole, Plan::Whole], vec![n]))
        .collect()
}

/// Tens of thousands of short-lived instances of one configuration all behave like the first.
pub fn many(c: &Case, log: &mut Log) -> Result<(), String> {
    let d = make(&c.cfg);
    let small = Case { mult: 1, ..c.clone() };
    let data = small.data(0);
    let want = [crate::model::cuts(&c.cfg, &data, crate::model::Mode::Incr), crate::model::cuts(&c.cfg, &data, crate::model::Mode::Search)];
    let keep = d.incr();
    for i in 0..c.knobs[0] {
        // mostly abandoned half way
        let n = if i % 3 == 0 { data.len() } else { data.len() / 2 + (i as usize % 7) };
        let n = n.min(data.len());
        let (got, w) = if i & 1 == 0 { (incr_cuts(&*d, &data[..n], &[n], 0), &want[0]) } else { (fce_cuts(&*d, &data[..n], &[n], 0), &want[1]) };
        let got = got.map_err(|e| format!("instance {}: {}", i, e))?;
        if n == data.len() || got.len() > w.len() || got[..] != w[..got.len()] {
            diff(&format!("instance {} of the same configuration vs the definition", i), &got, w)?;
        }
    }
    drop(keep);
    log.label("many-instances");
    log.nontrivial = !want[0].is_empty();
    Ok(())
}

// ---------------------------------------------------------------- limits beyond 32 bits

pub fn c15_jobs(thorough: bool, seed: u64) -> Vec<Case> {
    let mut v = fast_jobs(thorough, seed);
    v.extend(zpaq_jobs(thorough, seed));
    v.extend(nom_jobs(thorough, seed));
    v.extend(long_chunk_jobs(&[Alg::Fast, Alg::Ram, Alg::Zpaq, Alg::Buz], thorough, seed));
    let mut g = vec![];
    let reps = if thorough { 3 } else { 1 };
    for r in 0..reps {
        for kind in 0..10u32 {
            g.push(case(Cfg::MiiDefault, 1, vec![], vec![], vec![kind, (seed as u32 % 1000) + r * 7]));
        }
    }
    // the long ones first, spread over the shards
    g.extend(v);
    g
}

const G32: u64 = 1 << 32;

/// Feed `total` bytes (given in blocks by `fill(pos, block)`) and return the cuts.
pub fn stream(cfg: &Cfg, search: bool, total: u64, fill: &dyn Fn(u64, &mut [u8])) -> Result<Vec<u64>, String> {
    stream_of(&*make(cfg), cfg.window(), search, total, fill)
}

pub fn stream_of(d: &dyn Dyn, window: usize, search: bool, total: u64, fill: &dyn Fn(u64, &mut [u8])) -> Result<Vec<u64>, String> {
    const B: usize = 1 << 20;
    let mut cuts = vec![];
    let mut block = vec![0u8; B];
    if search {
        let mut se = d.search();
        let keep_max = window;
        let mut buf: Vec<u8> = Vec::with_capacity(2 * B + keep_max);
        let mut base = 0u64; // stream position of buf[0]
        let mut pos = 0u64;
        while pos < total {
            let n = B.min((total - pos) as usize);
            fill(pos, &mut block[..n]);
            buf.extend_from_slice(&block[..n]);
            pos += n as u64;
            let mut guard = 0;
            let mut lo = 0;
            loop {
                guard += 1;
                if guard > 2 * B {
                    return Err("no progress".into());
                }
                let view = &buf[lo..];
                let (cut, disc) = se.find(view);
                if disc > view.len() || cut.map_or(false, |k| k > view.len()) {
                    return Err(format!("buffer of {} bytes: cut {:?}, discard {}", view.len(), cut, disc));
                }
                if let Some(k) = cut {
                    cuts.push(base + k as u64);
                    limit(cuts.len())?;
                }
                lo += disc;
                base += disc as u64;
                if cut.is_none() {
                    break;
                }
            }
            buf.drain(..lo);
        }
    } else {
        let mut ch: Box<dyn ChunkIncr> = d.incr();
        let mut pos = 0u64;
        while pos < total {
            let n = B.min((total - pos) as usize);
            fill(pos, &mut block[..n]);
            let mut p = 0;
            let mut guard = 0;
            while p < n {
                guard += 1;
                if guard > 2 * B {
                    return Err("no progress".into());
                }
                match push(&mut *ch, &block[p..n])? {
                    None => break,
                    Some(k) => {
                        p += k;
                        cuts.push(pos + p as u64);
                        limit(cuts.len())?;
                    }
                }
            }
            pos += n as u64;
        }
    }
    Ok(cuts)
}

pub fn c15_giant(c: &Case, log: &mut Log) -> Result<(), String> {
    let kind = c.knobs[0];
    let x = 1000 + c.knobs[1] as u64 * 13;
    let search = kind % 2 == 1;
    let api = if search { "find_chunk_edge" } else { "push" };
    log.nontrivial = true;
    log.label("stream:>4GiB");
    match kind / 2 {
        0 => {
            // RAM: at least the window
            let w = G32 + x;
            let cfg = Cfg::Ram { w };
            let peaks = [0u64, x + 5, 3_000_000, G32 - 1, G32, G32 + 1, w - 1, w, w + 1];
            let got = stream(&cfg, search, w + 3_000_000, &|p, b| {
                for v in b.iter_mut() {
                    *v = 0;
                }
                for q in peaks.iter() {
                    if *q >= p && *q < p + b.len() as u64 {
                        b[(*q - p) as usize] = 255;
                    }
                }
            })?;
            // the byte at index w + 1 is the first that may end the chunk; it is a maximum
            if got.first() != Some(&(w + 2)) {
                return Err(format!("RAM, window {}, {}: first cut {:?}, expected {}", w, api, got.first(), w + 2));
            }
        }
        1 => {
            // FastCDC: minimum and maximum above 4 GiB (the minimum is skipped, so this is quick)
            let cfg = Cfg::Fast { table: Table::Random(1), min: G32 + x, normal: G32 + x + 300, max: G32 + x + 900 };
            let got = stream(&cfg, search, G32 + x + 3_000_000, &|p, b| {
                Rng::new(p ^ x).fill(b);
            })?;
            let (lo, hi) = cfg.limits();
            match got.first() {
                Some(c) if *c >= lo && Some(*c) <= hi => {}
                o => return Err(format!("{:?}, {}: first cut {:?}", cfg, api, o)),
            }
        }
        2 => {
            // FastCDC: only the maximum above 4 GiB, nothing matches before
            let cfg = Cfg::Fast { table: Table::Flat(1), min: 64, normal: G32 / 2, max: G32 + x };
            let t = Table::Flat(1).gear64()[0];
            // constant entries: after 64 bytes the fingerprint is constant
            let fp = t.wrapping_mul(u64::MAX);
            if fp & crate::model::MASK_L == 0 || (0..64).any(|i| t.wrapping_mul((1u64 << i).wrapping_sub(1).wrapping_mul(2).wrapping_add(1)) & crate::model::MASK_S == 0) {
                panic!("giant: unsuitable table");
            }
            let got = stream(&cfg, search, G32 + x + 3_000_000, &|_, _| {})?;
            if got.first() != Some(&(G32 + x)) {
                return Err(format!("{:?}, {}: first cut {:?}, expected {}", cfg, api, got.first(), G32 + x));
            }
        }
        3 => {
            // BuzHash: one byte past the maximum
            let cfg = Cfg::Buz { k: 1, mask: u32::MAX, table: Table::Random(2), kind: HKind::Borrowed, salt: 0, max: G32 + x };
            let got = stream(&cfg, search, G32 + x + 3_000_000, &|_, _| {})?;
            if got.first() != Some(&(G32 + x + 1)) {
                return Err(format!("{:?}, {}: first cut {:?}, expected {}", cfg, api, got.first(), G32 + x + 1));
            }
        }
        _ => {
            // zpaq: minimum above 4 GiB, every second byte would match
            let (lo, hi) = (G32 + x, G32 + x + 40);
            let cfg = Cfg::ZpaqAvg { n: 1, lo: Bd::Inc(lo), hi: Bd::Inc(hi) };
            let got = stream(&cfg, search, G32 + 3_000_000, &|p, b| {
                if p == 0 || p >= G32 {
                    Rng::new(p ^ x).fill(b)
                }
            })?;
            match got.first() {
                Some(c) if *c >= lo && *c <= hi => {}
                o => return Err(format!("{:?}, {}: first cut {:?}", cfg, api, o)),
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

pub fn c16_jobs(thorough: bool, seed: u64) -> Vec<Case> {
    let mut v = vec![];
    let reps = if thorough { 12 } else { 1 };
    for r in 0..reps {
        let key = (seed as u32).wrapping_mul(977).wrapping_add(r * 131);
        // large sizes: few cuts, or none
        let gib = if thorough { 6 } else { 1 };
        let mut big = |cfg: Cfg, i: u32| v.push(case(cfg, 1, vec![], vec![], vec![key ^ i, (i ^ key) & 1, gib]));
        for (i, n) in (18..=31u32).enumerate() {
            let i = i as u32;
            // every size, each through one of the interfaces; the other one with the next seed
            big(Cfg::Gear { log2: n as usize }, i);
            big(Cfg::Pigz { bits: n as u8 }, i);
            if n <= 26 {
                big(Cfg::ZpaqPow2 { n: n as u8 }, i);
                big(Cfg::Buz { k: 32 + n as usize, mask: (((1u64 << n) - 1) << (i % (32 - n + 1))) as u32, table: Table::Published, kind: HKind::Borrowed, salt: 0, max: u64::MAX }, i);
                big(Cfg::ZpaqMax { max: (3 << n) + 12345 }, i);
                big(Cfg::Zstd { size: 7 << n }, i);
            }
        }
        let mut add = |cfg: Cfg, search: u32| v.push(case(cfg, 1, vec![], vec![], vec![key, search]));
        // the longest first
        for mb in [1u64, 3, 4] {
            add(Cfg::Zstd { size: mb << 20 }, 0);
            add(Cfg::Zstd { size: mb << 20 }, 1);
        }
        if thorough && r < 2 {
            add(Cfg::ZstdDefault, r & 1);
            add(Cfg::Zstd { size: 17 << 20 }, r & 1);
        }
        for s in 0..2 {
            for n in 10..=17u8 {
                add(Cfg::ZpaqPow2 { n }, s);
            }
            add(Cfg::ZpaqDefault, s);
            for max in [20_000u64, 65_536, 100_000, 300_000, 520_192] {
                add(Cfg::ZpaqMax { max }, s);
            }
            for log2 in [4usize, 8, 10, 12, 14, 16, 17] {
                add(Cfg::Gear { log2 }, s);
            }
            add(Cfg::GearDefault, s);
            for bits in [4u8, 8, 9, 10, 13, 15, 16] {
                add(Cfg::Pigz { bits }, s);
            }
            add(Cfg::PigzDefault, s);
            add(Cfg::BupDefault, s);
            add(Cfg::Bup { window: 100 }, s);
            add(Cfg::BuzNom { salt: (seed % 251) as u8 }, s);
            for (k, mask) in [(31usize, 0x3ffu32), (67, 0xffff), (48, 0xa5a5_0000), (16, 0x8000_00ff), (95, 0x1f_f000)] {
                add(Cfg::Buz { k, mask, table: Table::Published, kind: HKind::Salted, salt: 3, max: u64::MAX }, s);
            }
        }
    }
    v
}

/// Expected mean chunk length on uniformly random data.
fn expected(cfg: &Cfg) -> (f64, f64) {
    // (value, relative slack beyond the statistical one)
    match cfg {
        Cfg::BupDefault | Cfg::Bup { .. } => (8192.0, 0.10),
        Cfg::GearDefault => (8192.0, 0.05),
        Cfg::Gear { log2 } => ((1u64 << log2) as f64, if *log2 < 8 { 0.12 } else { 0.05 }),
        Cfg::PigzDefault => (4096.0, 0.05),
        Cfg::Pigz { bits } => ((1u64 << bits) as f64, if *bits < 8 { 0.12 } else { 0.05 }),
        Cfg::BuzNom { .. } => (4096.0, 0.06),
        Cfg::Buz { mask, .. } => ((1u64 << mask.count_ones()) as f64, 0.06),
        Cfg::ZstdDefault => ((8u64 << 20) as f64, 0.02),
        Cfg::Zstd { size } => ((1u64 << (63 - size.leading_zeros())) as f64, 0.02),
        z => {
            let (min, max, n) = crate::model::zpaq_params(z).unwrap();
            let a = (1u64 << n) as f64;
            let span = max.unwrap_or(u64::MAX) as f64 - min as f64;
            (min as f64 + a * (1.0 - (-span / a).exp()), 0.05)
        }
    }
}

/// P(X <= k) for a Poisson variable.
fn poisson_cdf(k: u64, mean: f64) -> f64 {
    let mut t = (-mean).exp();
    let mut s = t;
    for i in 1..=k {
        t *= mean / i as f64;
        s += t;
    }
    s.min(1.0)
}

pub fn c16(c: &Case, log: &mut Log) -> Result<(), String> {
    let (want, slack) = expected(&c.cfg);
    let budget = (c.knobs.get(2).copied().unwrap_or(3) as u64) << 30;
    let total = (want * 500.0).min(budget as f64) as u64;
    let total = total.max(200_000);
    let seed = c.knobs[0] as u64;
    let cuts = stream(&c.cfg, c.knobs[1] % 2 == 1, total, &|p, b| Rng::new(seed ^ (p << 8)).fill(b))?;
    let n = cuts.len() as f64;
    let exp_n = total as f64 / want;
    if exp_n < 100.0 {
        // few chunks: the number of cuts is at most as spread as a Poisson variable
        let k = cuts.len() as u64;
        let lam = exp_n * 1.05 + 0.5;
        let many = if k == 0 { 1.0 } else { 1.0 - poisson_cdf(k - 1, lam) };
        let few = poisson_cdf(k, exp_n * 0.95);
        log.label("size:large");
        log.nontrivial = exp_n > 4.0;
        if many < 1e-8 || few < 1e-8 {
            return Err(format!("{:?}: {} cuts in {} random bytes, expected about {:.1}", c.cfg, k, total, exp_n));
        }
        return Ok(());
    }
    if cuts.len() < 30 {
        return Err(format!("{:?}: {} chunks in {} random bytes, expected about {:.0}", c.cfg, cuts.len(), total, exp_n));
    }
    let mean = *cuts.last().unwrap() as f64 / n;
    // chunk lengths vary about as much as their mean: six standard errors and the slack
    let tol = 6.0 / exp_n.sqrt() + slack;
    log.label(&format!("mean-to-expected:{:.1}", mean / want));
    log.nontrivial = n >= 200.0;
    if (mean / want - 1.0).abs() > tol {
        return Err(format!(
            "{:?}: mean chunk length {:.0} over {} chunks of random data, expected {:.0} (tolerance {:.0} %)",
            c.cfg,
            mean,
            n,
            want,
            tol * 100.0
        ));
    }
    Ok(())
}
