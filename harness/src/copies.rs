//! C20: copies, equality, constructors.
use crate::cfg::*;
use crate::data::*;
use crate::drive::diff;
use crate::model::{self, Mode};
use crate::props::{neighbour, R};
use crate::run::*;
use crate::strat::*;
use hash_roll::{Chunk, ChunkIncr, ToChunkIncr};

/// A hash with a meaningful equality, to compare `BuzHash` values.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct EqHash {
    table: Table,
    salt: u8,
    t: Vec<u32>,
}
impl EqHash {
    fn new(table: &Table, salt: u8) -> Self {
        EqHash { table: table.clone(), salt, t: impl_buz(table).to_vec() }
    }
}
impl hash_roll::buzhash::BuzHashHash for EqHash {
    fn hash(&self, d: u8) -> u32 {
        self.t[(d ^ self.salt) as usize]
    }
}

/// Positions (relative to the bytes fed here) of the cuts reported.
fn feed<I: ChunkIncr>(c: &mut I, data: &[u8]) -> Result<Vec<usize>, String> {
    let mut out = vec![];
    let mut pos = 0;
    let mut zero = 0;
    loop {
        match c.push(&data[pos..]) {
            None => return Ok(out),
            Some(k) => {
                zero = if k == 0 { zero + 1 } else { 0 };
                if zero > 1 || pos + k > data.len() {
                    return Err("push: no progress or out of the data".into());
                }
                pos += k;
                out.push(pos);
                if pos == data.len() {
                    return Ok(out);
                }
            }
        }
    }
}

/// A search in progress: the state and the bytes that have to be kept.
struct Run<S> {
    st: S,
    buf: Vec<u8>,
    base: usize,
    cuts: Vec<usize>,
}
impl<S> Run<S> {
    fn new(st: S) -> Self {
        Run { st, buf: vec![], base: 0, cuts: vec![] }
    }
    /// `stop`: leave off after that many reported cuts
    fn feed<C: Chunk<SearchState = S>>(&mut self, c: &C, data: &[u8], stop: usize) -> R {
        self.buf.extend_from_slice(data);
        let budget = 2 * self.buf.len() + 8;
        let mut guard = 0;
        let mut n = 0;
        let mut lo = 0;
        let end = loop {
            if n >= stop {
                break Ok(());
            }
            guard += 1;
            if guard > budget {
                break Err("find_chunk_edge: no progress".into());
            }
            let buf = &self.buf[lo..];
            let (cut, disc) = c.find_chunk_edge(&mut self.st, buf);
            if disc > buf.len() || cut.map_or(false, |k| k > buf.len()) {
                break Err("find_chunk_edge: out of the data".into());
            }
            if let Some(k) = cut {
                self.cuts.push(self.base + k);
                n += 1;
            }
            lo += disc;
            self.base += disc;
            if cut.is_none() {
                break Ok(());
            }
        };
        self.buf.drain(..lo);
        end
    }
}

fn after(v: Vec<usize>, n: usize, k: usize) -> Vec<usize> {
    v[k..].iter().map(|x| x - n).collect()
}

/// Copies of a chunker and of a search state.
fn copies<C>(c: &C, case: &Case, log: &mut Log) -> R
where
    C: Chunk + ToChunkIncr,
    C::Incr: Clone,
    C::SearchState: Clone,
{
    let (a, b1, b2) = (case.data(0), case.data(1), case.data(2));
    let cat = |x: &[u8], y: &[u8]| [x, y].concat();
    // chunker
    let mi = |d: &[u8]| model::cuts(&case.cfg, d, Mode::Incr);
    let mut o = c.to_chunk_incr();
    let k = feed(&mut o, &a)?.len();
    let mut cp = o.clone();
    let mut cp2 = c.to_chunk_incr();
    feed(&mut cp2, &b1)?;
    cp2.clone_from(&o);
    let w1 = after(mi(&cat(&a, &b1)), a.len(), k);
    let w2 = after(mi(&cat(&a, &b2)), a.len(), k);
    diff("copy of a chunker", &feed(&mut cp, &b2)?, &w2)?;
    diff("chunker after its copy was used", &feed(&mut o, &b1)?, &w1)?;
    diff("chunker overwritten with a copy (clone_from)", &feed(&mut cp2, &b2)?, &w2)?;
    // search
    let ms = |d: &[u8]| model::cuts(&case.cfg, d, Mode::Search);
    let stop = if case.knob(0) % 2 == 0 { usize::MAX } else { 1 + case.knob(1) % 3 };
    let mut o = Run::new(c.to_search_state());
    o.feed(c, &a, stop)?;
    let mut cp = Run { st: o.st.clone(), buf: o.buf.clone(), base: o.base, cuts: o.cuts.clone() };
    let mut st = c.to_search_state();
    let _ = c.find_chunk_edge(&mut st, &b1);
    st.clone_from(&o.st);
    let mut cp2 = Run { st, buf: o.buf.clone(), base: o.base, cuts: o.cuts.clone() };
    cp.feed(c, &b2, usize::MAX)?;
    o.feed(c, &b1, usize::MAX)?;
    cp2.feed(c, &b2, usize::MAX)?;
    diff("copy of a search state", &cp.cuts, &ms(&cat(&a, &b2)))?;
    diff("search state after its copy was used", &o.cuts, &ms(&cat(&a, &b1)))?;
    diff("search state overwritten with a copy (clone_from)", &cp2.cuts, &ms(&cat(&a, &b2)))?;
    log.nontrivial |= !w1.is_empty() && !w2.is_empty();
    Ok(())
}

/// Ways to obtain a chunker / a search state: all give the stream's cuts.
fn same_incr<I: ChunkIncr>(case: &Case, what: &str, mut i: I) -> R {
    let d = case.data(0);
    diff(what, &feed(&mut i, &d)?, &model::cuts(&case.cfg, &d, Mode::Incr))
}
fn same_search<C: Chunk>(case: &Case, what: &str, c: &C, st: C::SearchState) -> R {
    let d = case.data(0);
    let mut r = Run::new(st);
    r.feed(c, &d, usize::MAX)?;
    diff(what, &r.cuts, &model::cuts(&case.cfg, &d, Mode::Search))
}

/// A past that differs little: in one byte, in a few that leave a sum or hash as it is, at an end.
fn near(p: &[u8], case: &Case, how: usize) -> Vec<u8> {
    let mut v = p.to_vec();
    let n = v.len();
    if n == 0 {
        return vec![case.knob(4) as u8];
    }
    let w = case.cfg.window().clamp(4, 5000);
    // ages of two bytes
    let j = case.knob(6) % n.min(w + 2);
    let k = (j + 1 + case.knob(4) % 7).min(n - 1);
    let d = 1 + (case.knob(3) % 3) as u8;
    match how % 11 {
        0 => v[n - 1 - j] ^= 1 << (case.knob(2) % 8),
        1 if k != j => {
            v[n - 1 - j] = v[n - 1 - j].wrapping_add(d);
            v[n - 1 - k] = v[n - 1 - k].wrapping_sub(d);
        }
        2 if 2 * j + 1 < n => {
            v[n - 1 - j] = v[n - 1 - j].wrapping_sub(2 * d);
            v[n - 2 - 2 * j] = v[n - 2 - 2 * j].wrapping_add(d);
        }
        3 => {
            v.remove(0);
        }
        4 => {
            v.pop();
        }
        5 => v.push(d),
        6 => v.insert(0, d),
        // the same sum and the same weighted sum
        7 if j + 2 < n => {
            let step = 1 + case.knob(4) % ((n - 1 - j) / 2).min(9);
            for (age, x) in [(j, 1), (j + step, -2), (j + 2 * step, 1)] {
                v[n - 1 - age] = v[n - 1 - age].wrapping_add((x * d as i32) as u8);
            }
        }
        // the same hash when bytes are combined with their 32-bit hashes rotated by their age
        8 if j + 32 < n => v.swap(n - 1 - j, n - 33 - j),
        9 => v.insert(0, 0),
        _ => v.swap(n - 1 - j, n - 1 - k),
    }
    v
}

/// Continuations of a past: the case's own, and (`steer`) one that leads to cuts soon.
fn conts(case: &Case, p: &[u8], k: u64, steer: bool) -> Vec<Vec<u8>> {
    if !steer || p.len() > 3000 {
        return vec![case.data(2)];
    }
    let ops = [Op::Lit(p.to_vec()), Op::Steer { seed: k, gaps: vec![1 + (k % 13) as u16, 5] }];
    let v = crate::data::expand(&ops, &case.cfg, p.len() + 5_000, 1);
    vec![case.data(2), v[p.len().min(v.len())..].to_vec()]
}

/// Chunkers of two configurations: if they compare equal, they continue alike.
fn eq_across<C>(c: &C, other: &C, nb: &Cfg, case: &Case, log: &mut Log) -> R
where
    C: ToChunkIncr,
    C::Incr: PartialEq,
{
    let p = if case.knob(1) % 2 == 0 { vec![] } else { case.data(1) };
    let (mut i, mut j) = (c.to_chunk_incr(), other.to_chunk_incr());
    feed(&mut i, &p)?;
    feed(&mut j, &p)?;
    let equal = i == j;
    log.label_if(equal, "equal-chunkers-of-neighbours");
    log.label_if(!equal, "unequal-chunkers-of-neighbours");
    if equal {
        for (k, g) in [&case.cfg, nb].iter().enumerate() {
            let mut cs = case.clone();
            cs.cfg = (*g).clone();
            for cont in conts(&cs, &p, case.knob(3 + k) as u64, true) {
                let (mut i, mut j) = (c.to_chunk_incr(), other.to_chunk_incr());
                feed(&mut i, &p)?;
                feed(&mut j, &p)?;
                diff(&format!("equal chunkers of {:?} and {:?}", case.cfg, nb), &feed(&mut i, &cont)?, &feed(&mut j, &cont)?)?;
            }
        }
    }
    Ok(())
}

/// Chunkers with different pasts: if they compare equal, they continue alike.
fn eq_incr<C>(c: &C, case: &Case, log: &mut Log) -> R
where
    C: ToChunkIncr,
    C::Incr: PartialEq + std::fmt::Debug,
{
    let (a, b) = (case.data(0), case.data(1));
    let cuts = feed(&mut c.to_chunk_incr(), &a)?;
    let mut pasts: Vec<Vec<u8>> = vec![vec![], a.clone(), b.clone(), [&b[..], &a[..]].concat()];
    for k in 0..2 {
        if !cuts.is_empty() {
            let x = cuts[case.knob(k) % cuts.len()];
            pasts.push(a[..x].to_vec());
            pasts.push(a[..(x + case.knob(k + 2) % 40).min(a.len())].to_vec());
        }
    }
    let n = case.knob(5) % (a.len() + 1);
    pasts.push(a[n..].to_vec());
    let mk = |p: &[u8]| -> Result<C::Incr, String> {
        let mut i = c.to_chunk_incr();
        feed(&mut i, p)?;
        Ok(i)
    };
    let firsts = pasts.len();
    // and ones that differ little from one of these, compared with that one
    let mut from = vec![];
    for k in 0..3 {
        let x = (case.knob(k) + k) % firsts;
        let v = near(&pasts[x], case, case.knob(k + 1) / 8 + k);
        pasts.push(v);
        from.push(x);
    }
    let mut steered = 0;
    for x in 0..pasts.len() {
        for y in 0..x {
            if x >= firsts && y != from[x - firsts] {
                continue;
            }
            if pasts[x] != pasts[y] && mk(&pasts[x])? == mk(&pasts[y])? {
                steered += (x >= firsts) as u32;
                for cont in conts(case, &pasts[x], case.knob(4) as u64, x >= firsts && steered < 3) {
                    let (mut i, mut j) = (mk(&pasts[x])?, mk(&pasts[y])?);
                    let (u, v) = (feed(&mut i, &cont)?, feed(&mut j, &cont)?);
                    diff(&format!("equal chunkers with pasts of {} and {} bytes", pasts[x].len(), pasts[y].len()), &u, &v)?;
                    if !u.is_empty() {
                        log.label("equal-chunkers-different-pasts");
                        log.nontrivial = true;
                    }
                }
            }
        }
        // the same past: equal
        if mk(&pasts[x])? != mk(&pasts[x])? {
            return Err("chunkers with the same past are not equal".into());
        }
    }
    Ok(())
}

fn eq_search<C>(c: &C, case: &Case, log: &mut Log) -> R
where
    C: Chunk,
    C::SearchState: PartialEq,
{
    let (a, b) = (case.data(0), case.data(1));
    let mut r = Run::new(c.to_search_state());
    r.feed(c, &a, usize::MAX)?;
    let cuts = r.cuts;
    let mut pasts: Vec<Vec<u8>> = vec![vec![], a.clone(), b.clone(), [&b[..], &a[..]].concat()];
    if !cuts.is_empty() {
        let x = cuts[case.knob(0) % cuts.len()];
        pasts.push(a[..x].to_vec());
        pasts.push(a[..(x + case.knob(2) % 40).min(a.len())].to_vec());
    }
    let n = case.knob(5) % (a.len() + 1);
    pasts.push(a[n..].to_vec());
    let mk = |p: &[u8]| -> Result<Run<C::SearchState>, String> {
        let mut i = Run::new(c.to_search_state());
        i.feed(c, p, usize::MAX)?;
        i.cuts.clear();
        Ok(i)
    };
    let firsts = pasts.len();
    // and ones that differ little from one of these, compared with that one
    let mut from = vec![];
    for k in 0..3 {
        let x = (case.knob(k) + k) % firsts;
        let v = near(&pasts[x], case, case.knob(k + 1) / 8 + k);
        pasts.push(v);
        from.push(x);
    }
    let mut steered = 0;
    for x in 0..pasts.len() {
        for y in 0..x {
            if x >= firsts && y != from[x - firsts] {
                continue;
            }
            if pasts[x] != pasts[y] && mk(&pasts[x])?.st == mk(&pasts[y])?.st {
                // equal states and the same data to search: x's
                steered += (x >= firsts) as u32;
                for cont in conts(case, &pasts[x], case.knob(4) as u64, x >= firsts && steered < 3) {
                    let (mut i, mut j) = (mk(&pasts[x])?, mk(&pasts[y])?);
                    j.buf = i.buf.clone();
                    j.base = i.base;
                    i.feed(c, &cont, usize::MAX)?;
                    j.feed(c, &cont, usize::MAX)?;
                    diff(&format!("equal search states with pasts of {} and {} bytes", pasts[x].len(), pasts[y].len()), &i.cuts, &j.cuts)?;
                    if !i.cuts.is_empty() {
                        log.label("equal-states-different-pasts");
                        log.nontrivial = true;
                    }
                }
            }
        }
        if mk(&pasts[x])?.st != mk(&pasts[x])?.st {
            return Err("search states with the same past are not equal".into());
        }
    }
    Ok(())
}

fn eq_cfg<T: PartialEq + Clone + std::fmt::Debug>(a: &T, again: &T, other: &T, same: bool) -> R {
    if a != again || a != &a.clone() {
        return Err(format!("{:?} and the same configuration again are not equal", a));
    }
    if (a == other) != same {
        return Err(format!("{:?} == {:?} is {}", a, other, a == other));
    }
    Ok(())
}

fn same_params(a: &Cfg, b: &Cfg) -> bool {
    if a == b {
        return true;
    }
    match (model::zpaq_params(a), model::zpaq_params(b)) {
        (Some(x), Some(y)) => x == y,
        _ => false,
    }
}

pub fn c20(c: &Case, log: &mut Log) -> R {
    use hash_roll::*;
    let nb = neighbour(&c.cfg, c.knob(7));
    let same = same_params(&c.cfg, &nb);
    // a copy of the configuration, used after the original is gone
    let d = crate::drive::make(&c.cfg);
    let cp = d.dup();
    drop(d);
    let data = c.data(0);
    diff("copy of the configuration, push", &crate::drive::incr_cuts(&*cp, &data, &[data.len()], 0)?, &model::cuts(&c.cfg, &data, Mode::Incr))?;
    diff("copy of the configuration, search", &crate::drive::fce_cuts(&*cp, &data, &[data.len()], 0)?, &model::cuts(&c.cfg, &data, Mode::Search))?;
    log.label(cfg_label(&c.cfg));
    match c.cfg.alg() {
        Alg::Bup => {
            let mk = |g: &Cfg| match g {
                Cfg::Bup { window } => bup::RollSum::with_window(*window),
                _ => bup::RollSum::default(),
            };
            let x = mk(&c.cfg);
            copies(&x, c, log)?;
            eq_incr(&x, c, log)?;
            eq_across(&x, &mk(&nb), &nb, c, log)?;
            eq_search(&x, c, log)?;
            eq_cfg(&x, &mk(&c.cfg), &mk(&nb), same)?;
            eq_cfg(&bup::RollSum::default(), &bup::RollSum::with_window(64), &bup::RollSum::with_window(65), false)?;
            same_incr(c, "RollSumIncr::from(&)", bup::RollSumIncr::from(&x))?;
            same_search(c, "RollSumSearchState::from(&)", &x, bup::RollSumSearchState::from(&x))?;
            if c.cfg == Cfg::BupDefault {
                same_incr(c, "RollSumIncr::default()", bup::RollSumIncr::default())?;
            }
        }
        Alg::Buz => {
            if let Cfg::BuzNom { salt } = &c.cfg {
                let x = buzhash::BuzHash::new_nom(*salt);
                copies(&x, c, log)?;
                same_incr(c, "BuzHashIncr::from(&)", buzhash::BuzHashIncr::from(&x))?;
                same_incr(c, "BuzHashIncr::from()", buzhash::BuzHashIncr::from(x.clone()))?;
                same_search(c, "BuzHashSearchState::default()", &x, Default::default())?;
                return Ok(());
            }
            let mk = |g: &Cfg| match g {
                Cfg::Buz { k, mask, table, kind, salt, max } => {
                    buzhash::BuzHash::new(*k, *mask, EqHash::new(table, if *kind == HKind::Salted { *salt } else { 0 }), *max)
                }
                _ => unreachable!(),
            };
            let x = mk(&c.cfg);
            copies(&x, c, log)?;
            eq_incr(&x, c, log)?;
            eq_across(&x, &mk(&nb), &nb, c, log)?;
            eq_search(&x, c, log)?;
            let eff = |g: &Cfg| match g {
                Cfg::Buz { k, mask, table, kind, salt, max } => (*k, *mask, table.clone(), if *kind == HKind::Salted { *salt } else { 0 }, *max),
                _ => unreachable!(),
            };
            eq_cfg(&x, &mk(&c.cfg), &mk(&nb), eff(&c.cfg) == eff(&nb))?;
            same_incr(c, "BuzHashIncr::from(&)", buzhash::BuzHashIncr::from(&x))?;
            same_incr(c, "BuzHashIncr::from()", buzhash::BuzHashIncr::from(x.clone()))?;
            same_search(c, "BuzHashSearchState::default()", &x, Default::default())?;
        }
        Alg::Fast => {
            let mk = |g: &Cfg| match g {
                Cfg::Fast { table, min, normal, max } => fastcdc::FastCdc::new(impl_gear64(table), *min, *normal, *max),
                _ => fastcdc::FastCdc::default(),
            };
            let x = mk(&c.cfg);
            copies(&x, c, log)?;
            eq_incr(&x, c, log)?;
            eq_across(&x, &mk(&nb), &nb, c, log)?;
            eq_search(&x, c, log)?;
            eq_cfg(&x, &mk(&c.cfg), &mk(&nb), same)?;
            // the table counts by its contents
            if let Cfg::Fast { table, min, normal, max } = &c.cfg {
                let t = table.gear64();
                let mut t2 = t;
                let at = c.knob(6) % 256;
                t2[at] ^= 1 << (c.knob(5) % 64);
                let y = fastcdc::FastCdc::new(&t, *min, *normal, *max);
                let z = fastcdc::FastCdc::new(&t2, *min, *normal, *max);
                if x != y || y == z {
                    return Err(format!("equality does not follow the table's contents (entry {})", at));
                }
            }
            let t = gear_table::GEAR_64;
            eq_cfg(&fastcdc::FastCdc::default(), &fastcdc::FastCdc::new(&t, 2048, 8192, 65536), &fastcdc::FastCdc::new(&t, 2048, 65536, 8192), false)?;
            same_incr(c, "FastCdcIncr::from(&)", fastcdc::FastCdcIncr::from(&x))?;
            same_search(c, "FastCdcState::default()", &x, Default::default())?;
            if c.cfg == Cfg::FastDefault {
                same_incr(c, "FastCdcIncr::default()", fastcdc::FastCdcIncr::default())?;
            }
        }
        Alg::Gear => {
            let x = match &c.cfg {
                Cfg::Gear { log2 } => gear::Gear32::with_average_size_log2(*log2),
                _ => gear::Gear32::default(),
            };
            copies(&x, c, log)?;
            eq_search(&x, c, log)?;
            same_incr(c, "GearIncr32::from(&)", gear::GearIncr32::from(&x))?;
            same_search(c, "GearState32::default()", &x, Default::default())?;
        }
        Alg::Gzip => {
            let mk = |g: &Cfg| match g {
                Cfg::Gzip { window, modulus } => gzip::GzipRsyncable::with_window_and_modulus(*window, *modulus),
                _ => gzip::GzipRsyncable::default(),
            };
            let x = mk(&c.cfg);
            copies(&x, c, log)?;
            eq_cfg(&x, &mk(&c.cfg), &mk(&nb), same)?;
            eq_cfg(&gzip::GzipRsyncable::default(), &gzip::GzipRsyncable::with_window_and_modulus(8192, 4096), &gzip::GzipRsyncable::with_window_and_modulus(4096, 8192), false)?;
            same_incr(c, "GzipRsyncableIncr::from(&)", gzip::GzipRsyncableIncr::from(&x))?;
            same_incr(c, "GzipRsyncableIncr::from()", gzip::GzipRsyncableIncr::from(x.clone()))?;
            same_search(c, "GzipRsyncableSearchState::default()", &x, Default::default())?;
        }
        Alg::Mii => {
            let x = match &c.cfg {
                Cfg::Mii { w } => mii::Mii::with_w(*w),
                _ => mii::Mii::default(),
            };
            same_incr(c, "MiiIncr::from(&)", mii::MiiIncr::from(&x))?;
            same_incr(c, "MiiIncr::from()", mii::MiiIncr::from(x.clone()))?;
            same_search(c, "MiiSearchState::from(MiiIncr)", &x, mii::MiiSearchState::from(x.to_chunk_incr()))?;
            log.nontrivial = !model::cuts(&c.cfg, &data, Mode::Search).is_empty();
        }
        Alg::Pigz => {
            let mk = |g: &Cfg| match g {
                Cfg::Pigz { bits } => pigz::PigzRsyncable::with_bits(*bits),
                _ => pigz::PigzRsyncable::default(),
            };
            let x = mk(&c.cfg);
            copies(&x, c, log)?;
            eq_cfg(&x, &mk(&c.cfg), &mk(&nb), same)?;
            eq_cfg(&pigz::PigzRsyncable::default(), &pigz::PigzRsyncable::with_bits(12), &pigz::PigzRsyncable::with_bits(13), false)?;
            same_incr(c, "PigzRsyncableIncr::from(&)", pigz::PigzRsyncableIncr::from(&x))?;
            same_incr(c, "PigzRsyncableIncr::from()", pigz::PigzRsyncableIncr::from(x.clone()))?;
            same_search(c, "PigzRsyncableSearchState::from(&)", &x, pigz::PigzRsyncableSearchState::from(&x))?;
        }
        Alg::Ram => {
            let mk = |g: &Cfg| match g {
                Cfg::Ram { w } => ram::Ram::with_w(*w),
                _ => unreachable!(),
            };
            let x = mk(&c.cfg);
            copies(&x, c, log)?;
            eq_incr(&x, c, log)?;
            eq_across(&x, &mk(&nb), &nb, c, log)?;
            eq_search(&x, c, log)?;
            eq_cfg(&x, &mk(&c.cfg), &mk(&nb), same)?;
            same_incr(c, "RamIncr::from(&)", ram::RamIncr::from(&x))?;
            same_search(c, "RamState::default()", &x, Default::default())?;
        }
        Alg::Zpaq => {
            let mk = |g: &Cfg| match g {
                Cfg::ZpaqPow2 { n } => zpaq::Zpaq::with_average_size_pow_2(*n),
                Cfg::ZpaqMax { max } => zpaq::Zpaq::with_max_size(*max),
                Cfg::ZpaqRange { lo, hi } => zpaq::Zpaq::with_range((lo.std(), hi.std())),
                Cfg::ZpaqAvg { n, lo, hi } => zpaq::Zpaq::with_average_and_range(*n, (lo.std(), hi.std())),
                _ => zpaq::Zpaq::default(),
            };
            let x = mk(&c.cfg);
            crate::props::zpaq_constructors(&c.cfg)?;
            eq_cfg(&x, &mk(&c.cfg), &mk(&nb), same)?;
            eq_cfg(&zpaq::ZpaqHash::default(), &zpaq::ZpaqHash::default(), &zpaq::ZpaqHash::default(), true)?;
            eq_cfg(&zpaq::Zpaq::default(), &zpaq::Zpaq::with_average_size_pow_2(16), &zpaq::Zpaq::with_average_size_pow_2(17), false)?;
            same_incr(c, "ZpaqIncr::from(&)", zpaq::ZpaqIncr::from(&x))?;
            same_incr(c, "ZpaqIncr::from()", zpaq::ZpaqIncr::from(x.clone()))?;
            same_search(c, "ZpaqSearchState::from(&)", &x, zpaq::ZpaqSearchState::from(&x))?;
            same_search(c, "ZpaqSearchState::default()", &x, Default::default())?;
            log.nontrivial = !model::cuts(&c.cfg, &data, Mode::Search).is_empty();
        }
        Alg::Zstd => {
            let mk = |g: &Cfg| match g {
                Cfg::Zstd { size } => zstd::Zstd::with_target_section_size(*size),
                _ => zstd::Zstd::default(),
            };
            let x = mk(&c.cfg);
            eq_incr(&x, c, log)?;
            eq_across(&x, &mk(&nb), &nb, c, log)?;
            eq_search(&x, c, log)?;
            eq_cfg(&x, &mk(&c.cfg), &mk(&nb), same)?;
            eq_cfg(&zstd::Zstd::default(), &zstd::Zstd::with_target_section_size(8 << 20), &zstd::Zstd::with_target_section_size(16 << 20), false)?;
            same_incr(c, "ZstdIncr::from(&)", zstd::ZstdIncr::from(&x))?;
            same_incr(c, "ZstdIncr::from()", zstd::ZstdIncr::from(x.clone()))?;
            same_search(c, "ZstdSearchState::default()", &x, Default::default())?;
        }
    }
    Ok(())
}

#[allow(dead_code)]
fn unused(_: &Op) {}
