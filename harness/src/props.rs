//! The properties as executable checks over generated cases.
use crate::cfg::*;
use crate::data::*;
use crate::drive::*;
use crate::model::{self, Mode, Model};
use crate::rng::Rng;
use crate::run::*;
use crate::strat::*;
use hash_roll::ChunkIncr;

pub type R = Result<(), String>;

macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

fn ctx<T>(what: &str, r: Result<T, String>) -> Result<T, String> {
    r.map_err(|e| format!("{}: {}", what, e))
}

/// Piece ends of plan `i` over `data`.
fn ends(c: &Case, i: usize, data: &[u8], empties: u8) -> Vec<usize> {
    let cuts = match c.plans[i] {
        Plan::Around(_) => model::cuts(&c.cfg, data, Mode::Search),
        _ => vec![],
    };
    piece_ends(&c.plans[i], data.len(), &cuts, c.cfg.window(), empties)
}

fn basics(c: &Case, log: &mut Log, data: &[u8], cuts: &[usize]) {
    log.label(cfg_label(&c.cfg));
    log.label_if(cuts.is_empty(), "cuts:0");
    log.label_if(cuts.len() == 1, "cuts:1");
    log.label_if(cuts.len() > 1, "cuts:2+");
    log.label_if(data.len() > 65536, "len:>64K");
    log.label_if(data.len() > 1 << 20, "len:>1M");
    log.label_if(data.is_empty(), "len:0");
    log.label_if(c.cfg.hard(), "cond:15+bits");
    log.label_if(c.cfg.hard() && cuts.len() > 1, "cond:15+bits,cuts:2+");
    if !cuts.is_empty() {
        let mut p = 0;
        let w = c.cfg.window();
        let (lo, hi) = c.cfg.limits();
        for x in cuts {
            let l = x - p;
            if l <= w {
                log.label("chunk:within-window");
                break;
            }
            p = *x;
        }
        p = 0;
        for x in cuts {
            if hi == Some((x - p) as u64) {
                log.label("chunk:at-max");
                break;
            }
            p = *x;
        }
        p = 0;
        for x in cuts {
            if (x - p) as u64 <= lo + 1 && lo > 1 {
                log.label("chunk:at-min");
                break;
            }
            p = *x;
        }
    }
}

fn is_fast(c: &Cfg) -> bool {
    c.alg() == Alg::Fast
}

// ---------------------------------------------------------------- C01

fn at<'a>(data: &'a [u8], s: &[u8], what: &str) -> Result<usize, String> {
    let b = data.as_ptr() as usize;
    let p = s.as_ptr() as usize;
    if p < b || p + s.len() > b + data.len() {
        return Err(format!("{}: slice is not part of the input", what));
    }
    Ok(p - b)
}

fn consecutive(data: &[u8], items: &[&[u8]], what: &str) -> Result<usize, String> {
    let mut pos = 0;
    for (i, s) in items.iter().enumerate() {
        if s.is_empty() {
            return Err(format!("{}: item {} (at {}) is empty", what, i, pos));
        }
        let a = at(data, s, what)?;
        if a != pos {
            return Err(format!("{}: item {} starts at {}, expected {}", what, i, a, pos));
        }
        pos += s.len();
    }
    Ok(pos)
}

fn c01(c: &Case, log: &mut Log) -> R {
    let data = c.data(0);
    let n = data.len();
    let d = make(&c.cfg);
    if crate::giant::is_fast_min0(c) {
        return min0(c, log, "C01");
    }
    if c.mult == 1 {
        crate::user::slices(c, log)?;
    }
    let (items, mut tail, rem) = d.slices(&data, n + 3);
    let pos = consecutive(&data, &items, "iter_slices")?;
    if pos != n || !rem.is_empty() {
        fail!("iter_slices covers {} of {} bytes in {} items, rest {}", pos, n, items.len(), rem.len());
    }
    let (sitems, mut stail, srem, none) = d.strict(&data, n + 3, c.knob(0) % 2 == 1);
    let spos = consecutive(&data, &sitems, "iter_slices_strict")?;
    if spos + srem.len() != n || !none.is_empty() {
        fail!("iter_slices_strict covers {} of {} bytes, rest {} {}", spos, n, srem.len(), none.len());
    }
    if !srem.is_empty() && at(&data, srem, "iter_slices_strict rest")? != spos {
        fail!("iter_slices_strict: the rest does not follow the last chunk");
    }
    let how = c.knob(3);
    d.adapters(&data, false, &items, how, c.knob(4))?;
    d.adapters(&data, true, &sitems, how / 16, c.knob(5))?;
    let k = sitems.len();
    if items.len() < k || items.len() > k + 1 || items[..k].iter().zip(&sitems).any(|(a, b)| a.len() != b.len()) {
        fail!("iter_slices yields {:?}, iter_slices_strict {:?}", lens(&items), lens(&sitems));
    }
    if items.len() == k && !srem.is_empty() {
        fail!("iter_slices misses the rest of {} bytes", srem.len());
    }
    // every complete chunk ends at a cut point, and only an incomplete tail is withheld
    let cuts = feed_rest(&mut *d.incr(), &data)?;
    let got: Vec<usize> = ends_of(&sitems);
    diff("iter_slices_strict vs push", &got, &cuts)?;
    // stopping part way
    if k > 0 {
        let j = c.knob(1) % (k + 1);
        let (it, mut ch, rest) = d.slices(&data, j);
        let p = consecutive(&data, &it, "iter_slices, stopped")?;
        if ends_of(&it) != cuts[..j] {
            fail!("iter_slices stopped after {} items: {:?}", j, lens(&it));
        }
        if rest.len() != n - p || (!rest.is_empty() && at(&data, rest, "rest")? != p) {
            fail!("iter_slices stopped at {}: hands back {} of {} bytes", p, rest.len(), n - p);
        }
        let more: Vec<usize> = feed_rest(&mut *ch, rest)?.into_iter().map(|x| x + p).collect();
        diff("iter_slices continued after stopping", &more, &cuts[j..])?;
        let (it, mut ch, rest, _) = d.strict(&data, j, c.knob(2) % 2 == 1);
        let p = consecutive(&data, &it, "iter_slices_strict, stopped")?;
        if ends_of(&it) != cuts[..j] {
            fail!("iter_slices_strict stopped after {} items: {:?}", j, lens(&it));
        }
        if rest.len() != n - p {
            fail!("iter_slices_strict stopped at {}: hands back {} bytes", p, rest.len());
        }
        let more: Vec<usize> = feed_rest(&mut *ch, rest)?.into_iter().map(|x| x + p).collect();
        diff("iter_slices_strict continued after stopping", &more, &cuts[j..])?;
    }
    // the chunker handed back at the end continues with more data
    let more = c.data(1);
    let mut all = data.clone();
    all.extend_from_slice(&more);
    let full = feed_rest(&mut *d.incr(), &all)?;
    let want: Vec<usize> = full[cuts.len().min(full.len())..].to_vec();
    for (what, ch) in [("iter_slices", &mut tail), ("iter_slices_strict", &mut stail)] {
        let got: Vec<usize> = feed_rest_from(&mut **ch, &more, n, cuts.last().copied().unwrap_or(0))?;
        diff(&format!("{}: chunker handed back at the end", what), &got, &want)?;
    }
    // slicing the rest of a stream whose beginning was pushed
    let items = d.slices_after(&data, &more, more.len() + 3);
    let total: usize = items.iter().map(|s| s.len()).sum();
    if total != more.len() {
        fail!("iter_slices on a fed chunker covers {} of {} bytes", total, more.len());
    }
    let mut e: Vec<usize> = ends_of(&items).into_iter().map(|x| x + n).collect();
    if e.len() > want.len() {
        e.truncate(want.len());
    }
    diff("iter_slices on a fed chunker", &e, &want)?;
    basics(c, log, &data, &cuts);
    log.nontrivial = k >= 2;
    Ok(())
}

/// The recorded input (min size 0): slicing must get past its only byte.
fn min0(c: &Case, log: &mut Log, prop: &str) -> R {
    use crate::giant::KF_MIN0;
    let data = c.data(0);
    let d = make(&c.cfg);
    let (items, _, _) = d.slices(&data, 10);
    if items.len() <= 2 && items.iter().all(|s| !s.is_empty()) {
        return Ok(());
    }
    if crate::known::listed(prop, KF_MIN0) && items.iter().all(|s| s.is_empty()) {
        log.known.push(KF_MIN0.into());
        return Ok(());
    }
    fail!("iter_slices of a {}-byte input yields {} slices of lengths {:?}", data.len(), items.len(), lens(&items))
}

fn lens(v: &[&[u8]]) -> Vec<usize> {
    v.iter().map(|s| s.len()).take(20).collect()
}
fn ends_of(v: &[&[u8]]) -> Vec<usize> {
    let mut p = 0;
    v.iter()
        .map(|s| {
            p += s.len();
            p
        })
        .collect()
}
/// Like feed_rest for a chunker that has already seen `base` bytes with the last cut at `last`.
fn feed_rest_from<I: ChunkIncr + ?Sized>(c: &mut I, data: &[u8], base: usize, last: usize) -> Result<Vec<usize>, String> {
    let mut out = vec![];
    let mut pos = 0;
    let mut prev = last;
    let mut zero = 0;
    loop {
        match push(c, &data[pos..])? {
            None => return Ok(out),
            Some(k) => {
                zero = if k == 0 { zero + 1 } else { 0 };
                let cut = base + pos + k;
                if cut <= prev || zero > 1 {
                    return Err(format!("cut {} does not follow the previous cut {}", cut, prev));
                }
                prev = cut;
                out.push(cut);
                pos += k;
                if pos == data.len() {
                    return Ok(out);
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C02, C03, C04

fn c02(c: &Case, log: &mut Log) -> R {
    let data = c.data(0);
    let d = make(&c.cfg);
    let whole = ctx("fed as a whole", incr_cuts(&*d, &data, &[data.len()], 0))?;
    for i in 0..c.plans.len() {
        let e = ends(c, i, &data, (c.knob(i) % 4) as u8);
        let got = ctx(&format!("fed by plan {}", i), incr_cuts(&*d, &data, &e, (c.knob(i + 2) % 4) as u8))?;
        diff(&format!("fed as a whole vs by plan {} (ends {:?})", i, &e[..e.len().min(12)]), &whole, &got)?;
        if e.len() > 1 && !whole.is_empty() {
            log.nontrivial = true;
        }
    }
    basics(c, log, &data, &whole);
    Ok(())
}

fn c03(c: &Case, log: &mut Log) -> R {
    let data = c.data(0);
    let d = make(&c.cfg);
    let whole = ctx("whole buffer", fce_cuts(&*d, &data, &[data.len()], 0))?;
    for i in 0..c.plans.len() {
        let e = ends(c, i, &data, (c.knob(i) % 4) as u8);
        let st = (c.knob(i + 2) % 16) as u8;
        let got = ctx(&format!("buffer grown by plan {}", i), fce_cuts(&*d, &data, &e, st))?;
        diff(&format!("whole buffer vs grown by plan {} (ends {:?}, style {})", i, &e[..e.len().min(12)], st), &whole, &got)?;
        if e.len() > 1 && whole.len() > 1 {
            log.nontrivial = true;
        }
    }
    // one buffer of a fixed size, refilled in place; a caller that drops what it is told never
    // needs more than the window and one byte
    let w = c.cfg.window();
    let size = w + 1 + if c.knob(4) % 2 == 0 { c.knob(5) % 8 } else { c.knob(5) % (w + 300) };
    if data.len() <= 50_000 || size > 4 * w + 64 {
        let got = ctx("one buffer refilled", drive_fce_refill(&mut *d.search(), &data, size, c.knob(4) % 4 < 2))?;
        diff(&format!("whole buffer vs one buffer of {} bytes refilled", size), &whole, &got)?;
    }
    basics(c, log, &data, &whole);
    Ok(())
}

pub const KF_FAST: &str = "fastcdc-incr-one-early";

fn c04(c: &Case, log: &mut Log) -> R {
    let data = c.data(0);
    let d = make(&c.cfg);
    let e0 = ends(c, 0, &data, (c.knob(0) % 4) as u8);
    let e1 = ends(c, 1, &data, (c.knob(1) % 4) as u8);
    let s = ctx("search", fce_cuts(&*d, &data, &e0, (c.knob(2) % 16) as u8))?;
    let i = ctx("push", incr_cuts(&*d, &data, &e1, (c.knob(3) % 4) as u8))?;
    let (items, _, rem, _) = d.strict(&data, data.len() + 3, false);
    let sl = ends_of(&items);
    let _ = rem;
    let (items, _, _) = d.slices(&data, data.len() + 3);
    let mut sl2 = ends_of(&items);
    if sl2.last() == Some(&data.len()) && sl.last() != Some(&data.len()) {
        sl2.pop();
    }
    diff("push vs iter_slices_strict", &i, &sl)?;
    diff("push vs iter_slices", &i, &sl2)?;
    if s != i {
        // recorded finding: the repository's own tests pin FastCDC's incremental cuts one byte
        // before the search's. Only exactly that deviation is accepted.
        if is_fast(&c.cfg)
            && crate::known::listed("C04", KF_FAST)
            && s == model::cuts(&c.cfg, &data, Mode::Search)
            && i == model::cuts(&c.cfg, &data, Mode::Incr)
        {
            log.known.push(KF_FAST.into());
        } else {
            diff("find_chunk_edge vs push", &s, &i)?;
        }
    }
    basics(c, log, &data, &i);
    log.nontrivial = s.len() > 1;
    Ok(())
}

// ---------------------------------------------------------------- C05..C11 conformance

fn conform(c: &Case, log: &mut Log) -> R {
    let data = c.data(0);
    let d = make(&c.cfg);
    let ms = model::cuts(&c.cfg, &data, Mode::Search);
    let mi = if is_fast(&c.cfg) { model::cuts(&c.cfg, &data, Mode::Incr) } else { ms.clone() };
    let n = data.len();
    let e0 = ends(c, 0, &data, (c.knob(0) % 4) as u8);
    let e1 = ends(c, 1, &data, (c.knob(1) % 4) as u8);
    diff("find_chunk_edge vs the definition", &ctx("find_chunk_edge", fce_cuts(&*d, &data, &[n], 0))?, &ms)?;
    diff("push vs the definition", &ctx("push", incr_cuts(&*d, &data, &[n], 0))?, &mi)?;
    diff("find_chunk_edge, grown, vs the definition", &ctx("find_chunk_edge, grown", fce_cuts(&*d, &data, &e0, (c.knob(2) % 16) as u8))?, &ms)?;
    diff("push, in pieces, vs the definition", &ctx("push, in pieces", incr_cuts(&*d, &data, &e1, (c.knob(3) % 4) as u8))?, &mi)?;
    let (items, _, _, _) = d.strict(&data, n + 3, false);
    diff("iter_slices_strict vs the definition", &ends_of(&items), &mi)?;
    wide_window(c, log)?;
    basics(c, log, &data, &ms);
    log.nontrivial = ms.len() > 1;
    Ok(())
}

/// A window longer than any buffer. `find_chunk_edge` needs no memory for it, so it may be of any
/// size; a chunker that buffers its window is made for those of up to 16 MiB.
fn wide_window(c: &Case, log: &mut Log) -> R {
    if c.knob(4) % 12 != 0 || c.mult != 1 {
        return Ok(());
    }
    let (x, y) = (c.knob(5), c.knob(6));
    let small = (y / 7) % 9;
    let w = match x % 10 {
        9 => usize::MAX - small,
        k => (1usize << [16, 17, 20, 24, 31, 32, 33, 48, 63][k]).wrapping_add(small).wrapping_sub(4),
    };
    let mut cfg = c.cfg.clone();
    match &mut cfg {
        Cfg::Bup { window } | Cfg::Gzip { window, .. } => *window = w,
        Cfg::Buz { k, .. } => *k = w,
        _ => return Ok(()),
    }
    let mut data = c.data(0);
    data.truncate(6000);
    let d = make(&cfg);
    let want = model::cuts(&cfg, &data, Mode::Search);
    let e = piece_ends(&c.plans[0], data.len(), &want, 64, 0);
    let what = format!("window {}: find_chunk_edge", w);
    diff(&format!("{} vs the definition", what), &ctx(&what, fce_cuts(&*d, &data, &[data.len()], 0))?, &want)?;
    diff(&format!("{}, grown, vs the definition", what), &ctx(&what, fce_cuts(&*d, &data, &e, (c.knob(2) % 16) as u8))?, &want)?;
    if w <= 1 << 24 && y % 7 == 0 {
        // bup clears the whole buffer at each cut
        if want.len() < 20 {
            diff(&format!("window {}: push vs the definition", w), &ctx("push", incr_cuts(&*d, &data, &e, 0))?, &want)?;
            log.label("wide-window:push");
        }
    }
    log.label("wide-window");
    log.label_if(want.len() > 1, "wide-window:cuts:2+");
    Ok(())
}

fn c05(c: &Case, log: &mut Log) -> R {
    conform(c, log)?;
    use hash_roll::bup::{RollSum, RollSumIncr};
    use hash_roll::ToChunkIncr;
    let data = c.data(0);
    let data = &data[..data.len().min(4000)];
    let w = c.cfg.window();
    let mk = || match &c.cfg {
        Cfg::BupDefault => RollSumIncr::default(),
        _ => RollSum::with_window(w).to_chunk_incr(),
    };
    // digest through roll_byte: the window just rolls on
    let mut r = mk();
    if r.digest() != model::bup_digest_of(&[], w) {
        fail!("digest of nothing (window {}): {:#x}, expected {:#x}", w, r.digest(), model::bup_digest_of(&[], w));
    }
    for (i, b) in data.iter().enumerate() {
        r.roll_byte(*b);
        let want = model::bup_digest_of(&data[..=i], w);
        if r.digest() != want {
            fail!("digest after rolling {} bytes (window {}): {:#x}, expected {:#x}", i + 1, w, r.digest(), want);
        }
        if r.at_split() != (want & 0x1fff == 0x1fff) {
            fail!("at_split after {} bytes: {} (digest {:#x})", i + 1, r.at_split(), want);
        }
    }
    // digest through push: afresh after a cut
    let mut p = mk();
    let mut m = Model::new(&c.cfg, Mode::Incr);
    let mut cuts = 0;
    for (i, b) in data.iter().enumerate() {
        let got = p.push(&[*b]);
        let want = m.step(*b);
        if got.is_some() != want.is_some() {
            fail!("push of byte {}: {:?}, expected {:?}", i, got, want);
        }
        cuts += want.is_some() as usize;
        if p.digest() != m.digest() {
            fail!("digest after pushing {} bytes ({} cuts so far): {:#x}, expected {:#x}", i + 1, cuts, p.digest(), m.digest());
        }
    }
    log.label_if(data.len() > 2 * w, "digest:window-filled");
    log.nontrivial |= cuts > 0 || data.len() > w;
    Ok(())
}

fn c06(c: &Case, log: &mut Log) -> R {
    conform(c, log)?;
    let data = c.data(0);
    if data.len() > 30_000 {
        return Ok(());
    }
    // interchangeable ways to give the byte hash
    if let Cfg::Buz { k, mask, table, salt, max, .. } = &c.cfg {
        let mkc = |kind, salt| Cfg::Buz { k: *k, mask: *mask, table: table.clone(), kind, salt, max: *max };
        let run = |cfg: &Cfg, data: &[u8]| -> Result<(Vec<usize>, Vec<usize>), String> {
            let d = make(cfg);
            Ok((fce_cuts(&*d, data, &[data.len()], 0)?, incr_cuts(&*d, data, &[data.len()], 0)?))
        };
        let a = run(&mkc(HKind::Borrowed, 0), &data)?;
        if a != run(&mkc(HKind::Owned, 0), &data)? {
            fail!("borrowed and owned table disagree");
        }
        if a != run(&mkc(HKind::Salted, 0), &data)? {
            fail!("borrowed table and zero salt disagree");
        }
        let x: Vec<u8> = data.iter().map(|b| b ^ salt).collect();
        if run(&mkc(HKind::Salted, *salt), &data)? != run(&mkc(HKind::Borrowed, 0), &x)? {
            fail!("salt {} differs from xoring the data with it", salt);
        }
    }
    Ok(())
}

fn c09(c: &Case, log: &mut Log) -> R {
    zpaq_constructors(&c.cfg)?;
    conform(c, log)
}

/// What a constructor derives, against the constructor that takes everything.
pub fn zpaq_constructors(g: &Cfg) -> R {
    use hash_roll::zpaq::Zpaq;
    use std::ops::Bound::*;
    let (lo, hi, n) = model::zpaq_params(g).unwrap();
    let (lo, hi) = match g {
        Cfg::ZpaqRange { lo, hi } | Cfg::ZpaqAvg { lo, hi, .. } => (lo.std(), hi.std()),
        _ => (Included(lo), hi.map_or(Unbounded, Included)),
    };
    let x = match g {
        Cfg::ZpaqPow2 { n } => Zpaq::with_average_size_pow_2(*n),
        Cfg::ZpaqMax { max } => Zpaq::with_max_size(*max),
        Cfg::ZpaqRange { .. } => Zpaq::with_range((lo, hi)),
        Cfg::ZpaqAvg { n, .. } => Zpaq::with_average_and_range(*n, (lo, hi)),
        _ => Zpaq::default(),
    };
    let y = Zpaq::with_average_and_range(n, (lo, hi));
    if x != y {
        fail!("{:?} gives {:?}, by its parameters {:?}", g, x, y);
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

/// Two streams in the middle of a chunk, without a cut in the first part, which then both get the
/// same bytes: once a window's worth of those has passed without a cut, cuts coincide.
fn c12(c: &Case, log: &mut Log) -> R {
    let cfg = widen(&c.cfg);
    let c2 = Case { cfg: cfg.clone(), ..c.clone() };
    let w = match &cfg {
        Cfg::Gear { .. } | Cfg::GearDefault => 32,
        Cfg::Pigz { bits } => *bits as usize,
        Cfg::PigzDefault => 12,
        o => o.window(),
    };
    let zstd = cfg.alg() == Alg::Zstd;
    let d = make(&cfg);
    let s = c2.data(2);
    // prefixes without a cut: the part of a generated stream after its last cut
    let pre = |i: usize| -> Result<Vec<u8>, String> {
        let v = c2.data(i);
        if zstd {
            return Ok(v);
        }
        let cuts = feed_rest(&mut *d.incr(), &v)?;
        let p = cuts.last().copied().unwrap_or(0);
        Ok(v[p..].to_vec())
    };
    let (a, b) = (pre(0)?, pre(1)?);
    let cat = |x: &[u8]| {
        let mut v = x.to_vec();
        v.extend_from_slice(&s);
        v
    };
    let run = |v: &[u8], search: bool| -> Result<Vec<usize>, String> {
        if search {
            fce_cuts(&*d, v, &ends(&c2, 0, v, (c2.knob(1) % 4) as u8), (c2.knob(2) % 8) as u8)
        } else {
            incr_cuts(&*d, v, &ends(&c2, 1, v, (c2.knob(3) % 4) as u8), 0)
        }
    };
    for search in [false, true] {
        let fa: Vec<usize> = run(&cat(&a), search)?;
        let fb: Vec<usize> = run(&cat(&b), search)?;
        let rel = |f: &[usize], n: usize| -> Vec<i64> { f.iter().map(|x| *x as i64 - n as i64).collect() };
        let (ra, rb) = (rel(&fa, a.len()), rel(&fb, b.len()));
        // a cut at suffix offset p (the byte p-1 decides) depends on s[p-w..p] only if p >= w
        let lim = if zstd { 32 } else { w as i64 };
        if !zstd {
            // a cut before the window lies entirely in the common part: the chunks differ, no claim
            if ra.iter().chain(rb.iter()).any(|p| *p < lim) {
                log.label("skipped:early-cut");
                continue;
            }
        }
        let ta: Vec<i64> = ra.into_iter().filter(|p| *p >= lim).collect();
        let tb: Vec<i64> = rb.into_iter().filter(|p| *p >= lim).collect();
        // zstd: a stream starts cutting at its 33rd byte
        let (ta, tb) = if zstd {
            let f = |v: Vec<i64>| -> Vec<i64> { v.into_iter().filter(|p| *p > 32).collect() };
            (f(ta), f(tb))
        } else {
            (ta, tb)
        };
        if ta != tb {
            fail!(
                "{}: after different older bytes ({} and {}), the cuts in the same following bytes are {:?} and {:?} (window {})",
                if search { "find_chunk_edge" } else { "push" },
                a.len(),
                b.len(),
                &ta[..ta.len().min(5)],
                &tb[..tb.len().min(5)],
                w
            );
        }
        log.nontrivial |= !ta.is_empty() && a != b;
        log.label_if(!ta.is_empty() && a.len() >= w && b.len() >= w, "both-prefixes-fill-window");
        log.label_if(a.len() != b.len(), "different-lengths");
    }
    Ok(())
}

/// Without a maximum size (which depends on the chunk's length by design).
fn widen(c: &Cfg) -> Cfg {
    match c {
        Cfg::Buz { k, mask, table, kind, salt, .. } => {
            Cfg::Buz { k: *k, mask: *mask, table: table.clone(), kind: *kind, salt: *salt, max: u64::MAX }
        }
        o => o.clone(),
    }
}

// ---------------------------------------------------------------- C13

fn c13(c: &Case, log: &mut Log) -> R {
    let d = make(&c.cfg);
    let data = c.data(0);
    let zstd = c.cfg.alg() == Alg::Zstd;
    for search in [false, true] {
        let run = |v: &[u8]| -> Result<Vec<usize>, String> {
            // in pieces, so that a restart may follow several calls without a cut
            if search {
                fce_cuts(&*d, v, &ends(c, 0, v, (c.knob(6) % 4) as u8), (c.knob(7) % 8) as u8)
            } else {
                incr_cuts(&*d, v, &ends(c, 1, v, (c.knob(7) % 4) as u8), 0)
            }
        };
        let what = if search { "find_chunk_edge" } else { "push" };
        let all = run(&data)?;
        // a fresh start after a cut
        for k in 0..4 {
            if all.is_empty() {
                break;
            }
            let p = all[c.knob(k) % all.len()];
            let fresh: Vec<usize> = run(&data[p..])?.into_iter().map(|x| x + p).collect();
            let from = if zstd { p + 32 } else { p };
            let want: Vec<usize> = all.iter().copied().filter(|x| *x > from).collect();
            let fresh: Vec<usize> = fresh.into_iter().filter(|x| *x > from).collect();
            diff(&format!("{}: continuing vs starting afresh after the cut at {}", what, p), &want, &fresh)?;
            log.nontrivial |= !want.is_empty();
        }
        // an edit: other bytes before a common suffix
        let other = c.data(1);
        let q = c.knob(5) % (data.len() + 1);
        let mut ed = other.clone();
        ed.extend_from_slice(&data[q..]);
        let ce = run(&ed)?;
        let shift = ed.len() as i64 - data.len() as i64;
        let in_suffix = |v: &[usize], sh: i64| -> Vec<i64> { v.iter().map(|x| *x as i64 - sh).filter(|x| *x >= q as i64).collect() };
        let (sa, sb) = (in_suffix(&all, 0), in_suffix(&ce, shift));
        if zstd {
            let f = |v: &[i64]| -> Vec<i64> { v.iter().copied().filter(|x| *x > q as i64 + 32).collect() };
            if f(&sa) != f(&sb) {
                fail!("{}: cuts beyond 32 bytes into the common suffix differ: {:?} vs {:?}", what, f(&sa), f(&sb));
            }
            log.nontrivial |= !f(&sa).is_empty();
        } else if let Some(first) = sa.iter().find(|x| sb.binary_search(x).is_ok()) {
            let f = |v: &[i64]| -> Vec<i64> { v.iter().copied().filter(|x| x >= first).collect() };
            if f(&sa) != f(&sb) {
                fail!("{}: both cut at {} of the common suffix, later cuts differ: {:?} vs {:?}", what, first, f(&sa), f(&sb));
            }
            log.label_if(f(&sa).len() > 1, "resynchronised");
            log.nontrivial |= f(&sa).len() > 1;
        } else {
            log.label("no-common-cut");
        }
        if !search {
            basics(c, log, &data, &all);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

fn c14(c: &Case, log: &mut Log) -> R {
    let d = make(&c.cfg);
    let mut data = c.data(0);
    if c.mult == 1 {
        data.truncate(6000);
    }
    let n = data.len();
    let ones: Vec<usize> = (1..=n).collect();
    let inc = drive_incr(&mut *d.incr(), &data, &ones, 0)?;
    let fce = drive_fce(&mut *d.search(), &data, &ones, 0)?.cuts;
    let fast = is_fast(&c.cfg);
    // promptness: the byte that decides is the last of the chunk (FastCDC, incremental, cuts by
    // content: the first of the next)
    for (cut, known) in &inc {
        if *known != *cut && !(fast && *known == *cut + 1) {
            fail!("push: cut {} reported when {} bytes had been fed", cut, known);
        }
    }
    for (cut, known) in &fce {
        if known != cut {
            fail!("find_chunk_edge: cut {} found when the data had {} bytes", cut, known);
        }
    }
    let ki: Vec<usize> = inc.iter().map(|x| x.1).collect();
    let kf: Vec<usize> = fce.iter().map(|x| x.1).collect();
    if !fast {
        diff("amount of data at which push and find_chunk_edge report their cuts", &ki, &kf)?;
    } else if ki.first() != kf.first() {
        fail!("push reports its first cut at {:?} bytes, find_chunk_edge at {:?}", ki.first(), kf.first());
    }
    // fed in larger steps, a cut is reported with the step that contains its deciding byte
    for i in 0..c.plans.len() {
        let e = ends(c, i, &data, 0);
        let with = |v: &[(usize, usize)]| -> Vec<(usize, usize)> {
            v.iter().map(|(cut, known)| (*cut, e.get(e.partition_point(|x| x < known)).copied().unwrap_or(usize::MAX))).collect()
        };
        let early = |what: &str, got: Vec<(usize, usize)>, want: Vec<(usize, usize)>| -> R {
            match got.iter().zip(&want).position(|(a, b)| a != b) {
                None if got.len() == want.len() => Ok(()),
                x => {
                    let x = x.unwrap_or(got.len().min(want.len()));
                    Err(format!("{} fed by plan {}: (cut, data fed) #{} is {:?}, expected {:?}", what, i, x, got.get(x), want.get(x)))
                }
            }
        };
        early("push", drive_incr(&mut *d.incr(), &data, &e, (c.knob(6) % 2) as u8)?, with(&inc))?;
        early("find_chunk_edge", drive_fce(&mut *d.search(), &data, &e, (c.knob(7) % 4) as u8 & 2)?.cuts, with(&fce))?;
    }
    // finality: the cuts of a prefix are exactly the cuts known by then
    let mut points: Vec<usize> = (0..if n > 100_000 { 2 } else { 6 }).map(|k| (c.knob(k) * (1 + c.knob(k + 1) % 97)) % (n + 1)).collect();
    for k in 0..2 {
        if let Some((cut, known)) = inc.get(c.knob(k) % inc.len().max(1)) {
            points.extend_from_slice(&[*cut, cut - 1, *known, (*known + 1).min(n)]);
        }
    }
    for p in points {
        let wi: Vec<usize> = inc.iter().filter(|x| x.1 <= p).map(|x| x.0).collect();
        diff(&format!("push: cuts of the first {} of {} bytes, whole vs as part of the stream", p, n), &incr_cuts(&*d, &data[..p], &[p], 0)?, &wi)?;
        let wf: Vec<usize> = fce.iter().filter(|x| x.1 <= p).map(|x| x.0).collect();
        diff(&format!("find_chunk_edge: cuts of the first {} of {} bytes, whole vs as part of the stream", p, n), &fce_cuts(&*d, &data[..p], &[p], 0)?, &wf)?;
        // and stay when more is appended in one step
        diff(&format!("find_chunk_edge: buffer of {} bytes grown to {}", p, n), &fce_cuts(&*d, &data, &[p, n], 0)?, &fce.iter().map(|x| x.0).collect::<Vec<_>>())?;
        diff(&format!("push: {} bytes, then the other {}", p, n - p), &incr_cuts(&*d, &data, &[p, n], 0)?, &inc.iter().map(|x| x.0).collect::<Vec<_>>())?;
    }
    let cuts: Vec<usize> = inc.iter().map(|x| x.0).collect();
    basics(c, log, &data, &cuts);
    log.nontrivial = cuts.len() > 1;
    Ok(())
}

// ---------------------------------------------------------------- C15

fn c15(c: &Case, log: &mut Log) -> R {
    if c.knobs.len() == 2 {
        return crate::giant::c15_giant(c, log);
    }
    let d = make(&c.cfg);
    let data = c.data(0);
    let (lo, hi) = c.cfg.limits();
    let check = |what: &str, cuts: &[usize]| -> R {
        let mut p = 0usize;
        for x in cuts {
            let l = (x - p) as u64;
            if l < lo || hi.map_or(false, |h| l > h) {
                return Err(format!("{}: chunk {}..{} has {} bytes, limits {}..={:?}", what, p, x, l, lo, hi));
            }
            p = *x;
        }
        let l = (data.len() - p) as u64;
        if hi.map_or(false, |h| l > h) {
            return Err(format!("{}: {} bytes since the cut at {} without another one, limit {:?}", what, l, p, hi));
        }
        Ok(())
    };
    for i in 0..2 {
        let e = ends(c, i, &data, (c.knob(i) % 4) as u8);
        let f = fce_cuts(&*d, &data, &e, (c.knob(2) % 8) as u8)?;
        check("find_chunk_edge", &f)?;
        let v = incr_cuts(&*d, &data, &e, 0)?;
        check("push", &v)?;
        if i == 0 {
            let (items, _, _) = d.slices(&data, data.len() + 3);
            let mut s = ends_of(&items);
            if s.last() == Some(&data.len()) && v.last() != Some(&data.len()) {
                s.pop();
            }
            check("iter_slices", &s)?;
            basics(c, log, &data, &f);
        }
        let mut p = 0;
        for x in f.iter().chain([data.len()].iter()) {
            let l = (x - p) as u64;
            // non-trivial: a limit came into play
            log.nontrivial |= Some(l) == hi || l <= lo.saturating_add(2) && lo > 1;
            p = *x;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

fn c17(c: &Case, log: &mut Log) -> R {
    if c.mult == crate::giant::MANY {
        return crate::giant::many(c, log);
    }
    enum Inst {
        I(Box<dyn ChunkIncr>, Vec<usize>),
        S(Box<dyn Search>, usize, Vec<usize>),
    }
    let cfg2 = neighbour(&c.cfg, c.knob(0));
    let cfgs = [c.cfg.clone(), cfg2];
    let base: Vec<Box<dyn Dyn>> = cfgs.iter().map(make).collect();
    let dup: Vec<Box<dyn Dyn>> = base.iter().map(|d| d.dup()).collect();
    let data: Vec<Vec<u8>> = (0..c.streams.len()).map(|i| c.data(i)).collect();
    let n_inst = 3 + c.knob(1) % 6;
    struct Slot {
        cfg: usize,
        stream: usize,
        pos: usize,
        inst: Inst,
    }
    let mk = |r: &mut Rng, dead: usize| -> Slot {
        let cfg = (r.below(4) == 0) as usize;
        let d: &dyn Dyn = if r.below(2) == 0 { &*base[cfg] } else { &*dup[cfg] };
        let stream = r.below(data.len() as u64) as usize;
        let inst = if r.below(2) == 0 { Inst::I(d.incr(), vec![]) } else { Inst::S(d.search(), 0, vec![]) };
        let _ = dead;
        Slot { cfg, stream, pos: 0, inst }
    };
    let mut r = Rng::new(c.knob(2) as u64);
    let mut slots: Vec<Slot> = (0..n_inst).map(|i| mk(&mut r, i)).collect();
    let mut abandoned = 0;
    let verify = |s: &Slot| -> R {
        let d = &data[s.stream];
        match &s.inst {
            Inst::I(_, cuts) => {
                let want: Vec<usize> = incr_model(&cfgs[s.cfg], &d[..s.pos]);
                diff("interleaved chunker vs its stream alone", cuts, &want)
            }
            Inst::S(_, _, cuts) => {
                let want = model::cuts(&cfgs[s.cfg], &d[..s.pos], Mode::Search);
                diff("interleaved search vs its stream alone", cuts, &want)
            }
        }
    };
    let mut done_cuts = 0;
    // sometimes a step runs on another thread
    let threads = c.knob(2) % 8 == 3;
    let mut hops = 0;
    // sometimes all instances read through the same memory
    let shared = c.knob(2) % 4 == 1 && data.iter().all(|d| d.len() <= 50_000);
    let mut scratch = vec![0u8; if shared { data.iter().map(|d| d.len()).max().unwrap_or(0) } else { 0 }];
    // generated schedule, then everything is run to its end
    let sched: Vec<(usize, usize)> = c.knobs[3..].iter().map(|k| (*k as usize % 16, (*k as usize / 16) % 400)).collect();
    let mut queue: Vec<(usize, usize)> = sched;
    let tail: Vec<(usize, usize)> = (0..40).flat_map(|_| (0..n_inst).map(|i| (i, 701usize))).collect();
    queue.extend(tail);
    for (step, (who, len)) in queue.into_iter().enumerate() {
        if who >= n_inst {
            // abandon an instance half way and start another from the same configuration
            let i = (who + step) % n_inst;
            if step < c.knobs.len() {
                verify(&slots[i])?;
                slots[i] = mk(&mut r, i);
                abandoned += 1;
            }
            continue;
        }
        let s = &mut slots[who];
        let d = &data[s.stream];
        let end = (s.pos + len).min(d.len());
        if end == s.pos && len > 0 {
            continue;
        }
        let scratch = &mut scratch;
        let mut run = |s: &mut Slot| -> R {
        match &mut s.inst {
            Inst::I(ch, cuts) => {
                let last = cuts.last().copied().unwrap_or(0);
                let mut piece = &d[s.pos..end];
                if shared {
                    scratch[..end - s.pos].copy_from_slice(piece);
                    piece = &scratch[..end - s.pos];
                }
                let got = feed_rest_from(&mut **ch, piece, s.pos, last)?;
                cuts.extend(got);
            }
            Inst::S(se, base, cuts) => {
                let mut guard = 0;
                loop {
                    let mut buf = &d[*base..end.max(*base)];
                    if shared {
                        scratch[..buf.len()].copy_from_slice(buf);
                        buf = &scratch[..buf.len()];
                    }
                    let (cut, disc) = se.find(buf);
                    if disc > buf.len() || cut.map_or(false, |k| k > buf.len()) {
                        fail!("out of the data: {:?} {} of {}", cut, disc, buf.len());
                    }
                    guard += 1;
                    if guard > d.len() + 4 {
                        fail!("no progress");
                    }
                    if let Some(k) = cut {
                        cuts.push(*base + k);
                    }
                    *base += disc;
                    if cut.is_none() {
                        break;
                    }
                }
            }
        }
            Ok(())
        };
        if threads && step % 5 == 1 && hops < 6 {
            hops += 1;
            elsewhere(|| run(s))?;
        } else {
            run(s)?;
        }
        s.pos = end;
    }
    for s in &slots {
        verify(s)?;
        done_cuts += match &s.inst {
            Inst::I(_, c) => (c.len() > 1) as usize,
            Inst::S(_, _, c) => (c.len() > 1) as usize,
        };
    }
    log.label_if(hops > 0, "moved-between-threads");
    log.label_if(shared, "shared-memory");
    log.label_if(abandoned > 0, "abandoned-instances");
    log.label_if(slots.iter().any(|s| s.cfg == 1), "two-configurations");
    log.label(cfg_label(&c.cfg));
    log.nontrivial = done_cuts >= 2;
    Ok(())
}

/// Cuts an incremental chunker has reported after `data` (all algorithms).
fn incr_model(cfg: &Cfg, data: &[u8]) -> Vec<usize> {
    model::cuts(cfg, data, Mode::Incr)
}

/// A configuration of the same algorithm that differs in a parameter.
fn up(x: u64) -> u64 {
    x.checked_add(1).unwrap_or(u64::MAX - 1)
}

pub fn neighbour(c: &Cfg, k: usize) -> Cfg {
    match c.clone() {
        Cfg::BupDefault => Cfg::Bup { window: 63 },
        Cfg::Bup { window } => Cfg::Bup { window: window + 1 },
        Cfg::BuzNom { salt } => Cfg::BuzNom { salt: salt ^ (1 + (k % 255) as u8) },
        Cfg::Buz { k: w, mask, table, kind, salt, max } => match k % 5 {
            0 => Cfg::Buz { k: w + 1, mask, table, kind, salt, max },
            1 => Cfg::Buz { k: w, mask: mask ^ 1, table, kind, salt, max },
            2 => Cfg::Buz { k: w, mask, table: Table::Random(9), kind, salt, max },
            3 => Cfg::Buz { k: w, mask, table, kind: HKind::Salted, salt: if kind == HKind::Salted { salt ^ 5 } else { 5 }, max },
            _ => Cfg::Buz { k: w, mask, table, kind, salt, max: max ^ 1 },
        },
        Cfg::FastDefault => Cfg::Fast { table: Table::Published, min: 2048, normal: 8193, max: 65536 },
        Cfg::Fast { table, min, normal, max } => match k % 4 {
            0 => Cfg::Fast { table: Table::Random(9), min, normal, max },
            1 if min > 1 => Cfg::Fast { table, min: min - 1, normal, max },
            2 => Cfg::Fast { table, min, normal: up(normal), max },
            _ => Cfg::Fast { table, min, normal, max: up(max) },
        },
        Cfg::GearDefault => Cfg::Gear { log2: 12 },
        Cfg::Gear { log2 } => Cfg::Gear { log2: if log2 < 31 { log2 + 1 } else { 30 } },
        Cfg::GzipDefault => Cfg::Gzip { window: 8192, modulus: 2048 },
        Cfg::Gzip { window, modulus } => {
            if k % 2 == 0 {
                Cfg::Gzip { window: window + 1, modulus }
            } else {
                Cfg::Gzip { window, modulus: if modulus == 1 { 2 } else { modulus - 1 } }
            }
        }
        Cfg::MiiDefault => Cfg::Mii { w: 4 },
        Cfg::Mii { w } => Cfg::Mii { w: if w == 0 { 1 } else { w - 1 } },
        Cfg::PigzDefault => Cfg::Pigz { bits: 11 },
        Cfg::Pigz { bits } => Cfg::Pigz { bits: if bits < 31 { bits + 1 } else { 30 } },
        Cfg::Ram { w } => Cfg::Ram { w: w ^ 1 },
        Cfg::ZpaqDefault => Cfg::ZpaqPow2 { n: 15 },
        Cfg::ZpaqPow2 { n } => Cfg::ZpaqPow2 { n: if n > 10 { n - 1 } else { 11 } },
        Cfg::ZpaqMax { max } => Cfg::ZpaqMax { max: max.checked_add(64).unwrap_or_else(|| max - 64) },
        Cfg::ZpaqRange { lo, hi } => Cfg::ZpaqAvg { n: 7, lo, hi },
        Cfg::ZpaqAvg { n, lo, hi } => match (k % 2, hi) {
            (0, Bd::Inc(x)) => Cfg::ZpaqAvg { n, lo, hi: Bd::Inc(up(x)) },
            _ => Cfg::ZpaqAvg { n: if n < 32 { n + 1 } else { 31 }, lo, hi },
        },
        Cfg::ZstdDefault => Cfg::Zstd { size: 4 << 20 },
        // the size in MiB must fit 32 bits
        Cfg::Zstd { size } => Cfg::Zstd { size: if size < 1 << 51 { size * 2 } else { size / 2 } },
    }
}

// ---------------------------------------------------------------- C18

fn c18(c: &Case, log: &mut Log) -> R {
    let d = make(&c.cfg);
    if crate::giant::is_fast_min0(c) {
        return min0(c, log, "C18");
    }
    let pool: Vec<Vec<u8>> = (0..c.streams.len()).map(|i| c.data(i)).collect();
    let mut r = Rng::new(c.knob(0) as u64);
    let pick = |r: &mut Rng, k: u32| -> (usize, usize, usize) {
        let s = r.below(pool.len() as u64) as usize;
        let n = pool[s].len() as u64;
        let a = r.below(n + 1);
        let b = match k % 5 {
            0 => a,
            1 => (a + r.below(4)).min(n),
            2 => (a + r.below(80)).min(n),
            3 => n,
            _ => a + r.below(n - a + 1),
        };
        (s, a as usize, b as usize)
    };
    // incremental: arbitrary pieces, positions not followed
    let mut ch = d.incr();
    let mut some = 0;
    for k in &c.knobs[1..] {
        let (s, a, b) = pick(&mut r, *k);
        if push(&mut *ch, &pool[s][a..b])?.is_some() {
            some += 1;
        }
    }
    // ... then followed
    let p = &pool[0];
    let mut pos = 0;
    let mut calls = 0;
    loop {
        calls += 1;
        if calls > 2 * p.len() + 8 {
            fail!("push: no progress after {} calls on {} bytes (at {})", calls, p.len(), pos);
        }
        match push(&mut *ch, &p[pos..])? {
            None => break,
            Some(k) => {
                pos += k;
                some += 1;
            }
        }
    }
    for _ in 0..3 {
        push(&mut *ch, &[])?;
    }
    // search: buffers that need not extend the previous one, counts not followed
    let mut se = d.search();
    let find = |se: &mut dyn Search, buf: &[u8]| -> Result<(Option<usize>, usize), String> {
        let (cut, disc) = se.find(buf);
        if disc > buf.len() || cut.map_or(false, |k| k > buf.len()) {
            return Err(format!("buffer of {} bytes: cut {:?}, discard {}", buf.len(), cut, disc));
        }
        Ok((cut, disc))
    };
    for (i, k) in c.knobs[1..].iter().enumerate() {
        let (s, a, b) = pick(&mut r, *k);
        let (cut, disc) = find(&mut *se, &pool[s][a..b])?;
        some += cut.is_some() as usize;
        if i % 3 == 0 {
            // follow the protocol for a while on this buffer
            let mut q = a + disc;
            for _ in 0..4 {
                let (cut, disc) = find(&mut *se, &pool[s][q..b])?;
                q += disc;
                if cut.is_none() {
                    break;
                }
            }
        }
    }
    let mut pos = 0;
    let mut calls = 0;
    loop {
        calls += 1;
        if calls > 2 * p.len() + 8 {
            fail!("find_chunk_edge: no progress after {} calls on {} bytes (at {})", calls, p.len(), pos);
        }
        let (cut, disc) = find(&mut *se, &p[pos..])?;
        pos += disc;
        if cut.is_none() {
            break;
        }
        some += 1;
    }
    for _ in 0..3 {
        find(&mut *se, &p[pos..])?;
    }
    for _ in 0..3 {
        find(&mut *se, &[])?;
    }
    find(&mut *se, p)?;
    let (items, _, _) = d.slices(p, p.len() + 3);
    if items.len() > p.len() + 1 {
        fail!("iter_slices: {} items for {} bytes", items.len(), p.len());
    }
    d.debug(&p[..p.len().min(300)]);
    log.label(cfg_label(&c.cfg));
    log.label_if(some > 0, "some-cut-reported");
    log.nontrivial = some > 0;
    Ok(())
}

// ---------------------------------------------------------------- C19

fn c19(c: &Case, log: &mut Log) -> R {
    use crate::alloc::live;
    let d = make(&c.cfg);
    let data = c.data(0);
    let w = c.cfg.window();
    let bound = 4 * w as i64 + 16 * 1024;
    let e = ends(c, 0, &data, (c.knob(0) % 4) as u8);
    // search: what it asks to keep
    let calls0 = HASH_CALLS.with(|x| x.get());
    let mut se = d.search();
    let l = drive_fce(&mut *se, &data, &e, (c.knob(1) % 8) as u8)?;
    let calls1 = HASH_CALLS.with(|x| x.get());
    if l.max_keep > w {
        fail!("find_chunk_edge asks to keep {} bytes, window {}", l.max_keep, w);
    }
    if l.max_back > w {
        fail!("find_chunk_edge asks to keep {} bytes before a cut, window {}", l.max_back, w);
    }
    let work = 3 * data.len() as u64 + 4 * w as u64 + 64;
    if let Cfg::Buz { .. } = c.cfg {
        if calls1 - calls0 > work {
            fail!("find_chunk_edge hashes {} times for {} bytes in {} calls", calls1 - calls0, data.len(), l.calls);
        }
    }
    // each byte is looked at when it enters and when it leaves the window
    if w > 0 {
        let noisy = drive_fce_noise(&mut *d.search(), &data, &e, w, c.knob(2) as u64)?;
        diff("kept bytes looked at again although they neither enter nor leave the window: cuts", &noisy, &l.pos())?;
    }
    // memory held by a chunker / a search state, measured around the calls
    let before = live();
    let mut ch = d.incr();
    let mut held = live() - before;
    let mut peak = held;
    let mut pos = 0;
    let calls0 = HASH_CALLS.with(|x| x.get());
    for end in &e {
        let mut zero = 0;
        loop {
            let a = live();
            let r = ch.push(&data[pos..*end]);
            held += live() - a;
            peak = peak.max(held);
            match r {
                None => {
                    pos = *end;
                    break;
                }
                Some(k) => {
                    zero = if k == 0 { zero + 1 } else { 0 };
                    if zero > 1 {
                        fail!("no progress");
                    }
                    pos += k;
                    if pos == *end {
                        break;
                    }
                }
            }
        }
    }
    let calls1 = HASH_CALLS.with(|x| x.get());
    if peak > bound {
        fail!("incremental chunker holds {} bytes after {} of data, window {}", peak, data.len(), w);
    }
    if let Cfg::Buz { .. } = c.cfg {
        if calls1 - calls0 > work {
            fail!("push hashes {} times for {} bytes", calls1 - calls0, data.len());
        }
    }
    let mut se = d.search();
    let mut held = 0;
    let mut base = 0;
    let mut guard = 0;
    for end in &e {
        loop {
            guard += 1;
            if guard > 4 * data.len() + 4 * e.len() + 64 {
                fail!("no progress");
            }
            let a = live();
            let (cut, disc) = se.find(&data[base..(*end).max(base)]);
            held += live() - a;
            if held > bound {
                fail!("search state holds {} bytes after {} of data, window {}", held, base, w);
            }
            base += disc;
            if cut.is_none() {
                break;
            }
        }
    }
    basics(c, log, &data, &l.pos());
    // non-trivial: more data without a cut than the window holds, over several calls
    let mut p = 0;
    for x in l.pos().into_iter().chain([data.len()]) {
        log.nontrivial |= x - p > 2 * w + 2 && e.len() > 1;
        p = x;
    }
    Ok(())
}

// ---------------------------------------------------------------- C22

fn c22(c: &Case, log: &mut Log) -> R {
    crate::ranges::c22(c, log)
}

const FRAME: [Alg; 10] = ALGS;

pub fn checks() -> Vec<Check> {
    let all = "streams come from recipes (literals, random runs, small alphabets, repeats, ramps, copies, and model-steered bytes that place cuts at chosen distances or avoid them up to size limits) over random configurations of all ten algorithms";
    let _ = all;
    vec![
        Check { id: "C01", strat: || case(&Shape::new(&FRAME).streams(2)), run: c01, quick: 60_000, thorough: 3_000_000, jobs: Some(crate::giant::c01_jobs),
            rule: "A case is a configuration of one of the ten algorithms and a stream (recipe of literals, random runs, repeats, ramps, copies, model-steered cuts and cut-free runs). Non-trivial: at least two complete chunks." },
        Check { id: "C02", strat: || case(&Shape::new(&FRAME).plans(2)), run: c02, quick: 80_000, thorough: 4_000_000, jobs: Some(crate::giant::c02_jobs),
            rule: "Configuration, stream, two divisions into pieces (bytes, fixed, lists, ends around model cuts and window boundaries, empty pieces). Non-trivial: a cut exists and some division has two or more pieces." },
        Check { id: "C03", strat: || case(&Shape::new(&FRAME).plans(2)), run: c03, quick: 80_000, thorough: 4_000_000, jobs: Some(crate::giant::c03_jobs),
            rule: "Configuration, stream, two growth schedules of the buffer with styles (growth right after a cut, repeated call without growth, call after the end). Non-trivial: at least two cuts and at least two buffer sizes." },
        Check { id: "C04", strat: || case(&Shape::new(&FRAME).plans(2)), run: c04, quick: 80_000, thorough: 4_000_000, jobs: Some(crate::giant::c04_jobs),
            rule: "Configuration, stream, growth schedule for the search, division for push. Non-trivial: at least two cuts." },
        Check { id: "C05", strat: || case(&Shape::new(&[Alg::Bup])), run: c05, quick: 24_000, thorough: 1_500_000, jobs: Some(crate::giant::c05_jobs),
            rule: "Bup with random window lengths, streams steered to cuts. Non-trivial: at least one cut or more bytes than the window." },
        Check { id: "C06", strat: || case(&Shape::new(&[Alg::Buz])), run: c06, quick: 50_000, thorough: 3_000_000, jobs: Some(crate::giant::c06_jobs),
            rule: "BuzHash with random window, mask, table kind, salt, maximum size. Non-trivial: at least two cuts." },
        Check { id: "C07", strat: || case(&Shape::new(&[Alg::Gzip, Alg::Pigz])), run: conform, quick: 60_000, thorough: 3_000_000, jobs: Some(crate::giant::c07_jobs),
            rule: "gzip with random window and modulus, pigz with 0..=31 bits. Non-trivial: at least two cuts." },
        Check { id: "C08", strat: || case(&Shape::new(&[Alg::Zstd]).ops(8)), run: conform, quick: 60_000, thorough: 3_000_000, jobs: Some(crate::giant::c08_jobs),
            rule: "zstd with section sizes from 1 MiB, cuts constructed by solving for four bytes, also 1..3 bytes apart. Non-trivial: at least two cuts." },
        Check { id: "C09", strat: || case(&Shape::new(&[Alg::Zpaq]).big(10)), run: c09, quick: 60_000, thorough: 2_000_000, jobs: Some(crate::giant::zpaq_jobs),
            rule: "zpaq from all constructors (default, size power, maximum size, range, average and range). Non-trivial: at least two cuts." },
        Check { id: "C10", strat: || case(&Shape::new(&[Alg::Gear, Alg::Fast])), run: conform, quick: 40_000, thorough: 2_000_000, jobs: Some(crate::giant::c10_jobs),
            rule: "gear with 1..=31 bits, FastCDC with random tables and sizes. Non-trivial: at least two cuts." },
        Check { id: "C11", strat: || case(&Shape::new(&[Alg::Ram, Alg::Mii])), run: conform, quick: 80_000, thorough: 4_000_000, jobs: Some(crate::giant::c11_jobs),
            rule: "RAM and MII with random parameters. Non-trivial: at least two cuts." },
        Check { id: "C12", strat: || case(&Shape::new(&[Alg::Bup, Alg::Buz, Alg::Gzip, Alg::Gear, Alg::Pigz, Alg::Zstd]).streams(3)), run: c12, quick: 80_000, thorough: 4_000_000, jobs: Some(crate::giant::c12_jobs),
            rule: "Two different cut-free prefixes and a common continuation. Non-trivial: the prefixes differ and a cut follows in the common part after a window's length." },
        Check { id: "C13", strat: || case(&Shape::new(&FRAME).streams(2)), run: c13, quick: 50_000, thorough: 2_500_000, jobs: Some(crate::giant::c13_jobs),
            rule: "A stream restarted after up to four of its cuts, and the stream with its beginning replaced. Non-trivial: a later cut exists after the restart or after a common cut." },
        Check { id: "C14", strat: || case(&Shape::new(&FRAME).big(5)), run: c14, quick: 80_000, thorough: 2_000_000, jobs: Some(crate::giant::c14_jobs),
            rule: "A stream fed byte by byte (recording when each cut becomes known) against all-at-once runs of prefixes ending at random places and around cuts. Non-trivial: at least two cuts." },
        Check { id: "C15", strat: || case(&Shape::new(&[Alg::Fast, Alg::Ram, Alg::Zpaq, Alg::Buz]).big(8)), run: c15, quick: 50_000, thorough: 2_500_000, jobs: Some(crate::giant::c15_jobs),
            rule: "Configurations with size limits, streams steered to the limits, several feed schedules; plus streams of more than 4 GiB for limits beyond 32 bits. Non-trivial: a chunk at the maximum or within two bytes of the minimum." },
        Check { id: "C16", strat: || case(&Shape::new(&FRAME)), run: crate::giant::c16, quick: 0, thorough: 0, jobs: Some(crate::giant::c16_jobs),
            rule: "A size parameter and a seed of uniformly random data, enough for hundreds of chunks. Non-trivial: at least 200 chunks." },
        Check { id: "C17", strat: || case(&Shape::new(&FRAME).streams(3).knobs(40).big(3)), run: c17, quick: 70_000, thorough: 2_500_000, jobs: Some(crate::giant::many_jobs),
            rule: "Three streams, 3..8 chunkers and searches made from a configuration, a copy of it and a neighbouring configuration, run by a generated interleaving with abandoned instances. Non-trivial: two instances with at least two cuts." },
        Check { id: "C18", strat: || case(&Shape::new(&FRAME).streams(3).knobs(24)), run: c18, quick: 50_000, thorough: 3_000_000, jobs: Some(crate::giant::c18_jobs),
            rule: "Histories of calls with arbitrary pieces and buffers (also ones that do not extend the previous buffer), then a well-behaved caller. Non-trivial: some call reported a cut." },
        Check { id: "C19", strat: || case(&Shape::new(&FRAME).big(20)), run: c19, quick: 100_000, thorough: 2_000_000, jobs: Some(crate::giant::c19_jobs),
            rule: "Configuration, stream, growth schedule; kept bytes, allocated bytes and hash calls are counted. Non-trivial: a run without a cut of more than twice the window, over several calls." },
        Check { id: "C20", strat: || case(&Shape::new(&FRAME).streams(3).big(4)), run: crate::copies::c20, quick: 40_000, thorough: 2_000_000, jobs: None,
            rule: "A stream prefix, a copy taken, two continuations. Non-trivial: a cut is reported after the copy was taken." },
        Check { id: "C22", strat: || case(&Shape { algs: vec![Alg::Ram], streams: 0, ops: 1, plans: 0, knobs: 12, big: 0 }), run: c22, quick: 600_000, thorough: 10_000_000, jobs: None,
            rule: "Random pairs of bounds (all nine combinations, std range types) over several item types and items at or near the bounds. Non-trivial: the item is within one step of a bound." },
    ]
}
