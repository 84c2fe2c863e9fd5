//! Drivers: a caller of each interface that follows the documented protocol, checking at every
//! step what holds for every call (results inside the data, progress).
use crate::cfg::Cfg;
use crate::with_alg;
use hash_roll::{Chunk, ChunkIncr, ToChunkIncr};
use std::fmt::Debug;

pub trait Search {
    fn find(&mut self, data: &[u8]) -> (Option<usize>, usize);
}
struct Own<C: Chunk> {
    c: C,
    s: C::SearchState,
}
impl<C: Chunk> Search for Own<C> {
    fn find(&mut self, data: &[u8]) -> (Option<usize>, usize) {
        self.c.find_chunk_edge(&mut self.s, data)
    }
}

pub type Slices<'a> = Vec<&'a [u8]>;

pub trait Dyn {
    fn incr(&self) -> Box<dyn ChunkIncr>;
    fn search(&self) -> Box<dyn Search>;
    fn dup(&self) -> Box<dyn Dyn>;
    /// length of the Debug output of the configuration, a chunker and a search state that have seen `data`
    fn debug(&self, data: &[u8]) -> usize;
    /// iter_slices: at most `limit` items; what it yields and the rest handed back
    fn slices<'a>(&self, data: &'a [u8], limit: usize) -> (Slices<'a>, Box<dyn ChunkIncr>, &'a [u8]);
    /// iter_slices on a chunker that has already been fed `pre`
    fn slices_after<'a>(&self, pre: &[u8], data: &'a [u8], limit: usize) -> Slices<'a>;
    /// iter_slices_strict: items, chunker, rest (`take`: the rest obtained through take_rem; then
    /// what into_parts still holds is returned last)
    fn strict<'a>(&self, data: &'a [u8], limit: usize, take: bool) -> (Slices<'a>, Box<dyn ChunkIncr>, &'a [u8], &'a [u8]);
    /// the other ways to run the slice iterations, against the items `next` yields
    fn adapters<'a>(&self, data: &'a [u8], strict: bool, want: &[&'a [u8]], how: usize, j: usize) -> Result<(), String>;
}

fn same<'a>(what: &str, got: &[&'a [u8]], want: &[&'a [u8]]) -> Result<(), String> {
    let id = |v: &[&'a [u8]]| -> Vec<(usize, usize)> { v.iter().map(|s| (s.as_ptr() as usize, s.len())).collect() };
    if id(got) == id(want) {
        return Ok(());
    }
    let l = |v: &[&'a [u8]]| -> Vec<usize> { v.iter().map(|s| s.len()).take(12).collect() };
    Err(format!("{}: {} items of lengths {:?}.., one by one: {} of {:?}..", what, got.len(), l(got), want.len(), l(want)))
}

pub const HOWS: usize = 15;

/// Every way of consuming an iterator agrees with calling `next` again and again. An iteration
/// that ended is not polled again.
pub fn adapters<'a, I: Iterator<Item = &'a [u8]>>(mut it: I, want: &[&'a [u8]], how: usize, j: usize) -> Result<(), String> {
    let n = want.len();
    let k = j % (n + 1);
    let opt = |x: Option<&'a [u8]>| -> Vec<&'a [u8]> { x.into_iter().collect() };
    match how % HOWS {
        0 => {
            for i in 0..=n {
                let (lo, hi) = it.size_hint();
                if lo > n - i || hi.map_or(false, |h| h < n - i) {
                    return Err(format!("size_hint {:?} with {} items left", (lo, hi), n - i));
                }
                if i < n {
                    same("next", &opt(it.next()), &want[i..i + 1])?;
                }
            }
            Ok(())
        }
        1 => {
            let c = it.count();
            if c != n {
                return Err(format!("count {}, one by one {}", c, n));
            }
            Ok(())
        }
        2 => same("last", &opt(it.last()), &want[n.saturating_sub(1)..]),
        3 => {
            let x = it.nth(k);
            if k == n {
                return same("nth past the end", &opt(x), &[]);
            }
            same("nth", &opt(x), &want[k..k + 1])?;
            same("rest after nth", &it.collect::<Vec<_>>(), &want[k + 1..])
        }
        4 => same(
            "fold",
            &it.fold(vec![], |mut v, s| {
                v.push(s);
                v
            }),
            want,
        ),
        5 => same("step_by", &it.step_by(1 + j % 5).collect::<Vec<_>>(), &want.iter().copied().step_by(1 + j % 5).collect::<Vec<_>>()),
        6 => same("skip", &it.skip(k).collect::<Vec<_>>(), &want[k..]),
        7 => {
            same("take", &it.by_ref().take(k).collect::<Vec<_>>(), &want[..k])?;
            same("rest after take", &it.collect::<Vec<_>>(), &want[k..])
        }
        8 => {
            if n == 0 {
                return Ok(());
            }
            let t = want[j % n].as_ptr();
            same("find", &opt(it.find(|s| s.as_ptr() == t)), &want[j % n..j % n + 1])?;
            same("rest after find", &it.collect::<Vec<_>>(), &want[j % n + 1..])
        }
        9 => {
            let mut v = vec![];
            it.for_each(|s| v.push(s));
            same("for_each", &v, want)
        }
        10 => same("max_by_key", &opt(it.max_by_key(|s| s.as_ptr() as usize)), &want[n.saturating_sub(1)..]),
        11 => {
            let (a, b): (Vec<&[u8]>, Vec<&[u8]>) = it.partition(|s| s.len() % 2 == 0);
            same("partition", &a, &want.iter().copied().filter(|s| s.len() % 2 == 0).collect::<Vec<_>>())?;
            same("partition", &b, &want.iter().copied().filter(|s| s.len() % 2 == 1).collect::<Vec<_>>())
        }
        12 => {
            let mut p = it.peekable();
            same("peek", &opt(p.peek().copied()), &want[..n.min(1)])?;
            if n == 0 {
                return Ok(());
            }
            same("peekable", &p.collect::<Vec<_>>(), want)
        }
        13 => {
            let v: Vec<_> = it.zip(0..k).map(|x| x.0).collect();
            same("zip", &v, &want[..k])
        }
        _ => {
            // read on in a loop with an early exit, then go on with the same iterator
            let mut v = vec![];
            if k > 0 {
                for s in it.by_ref() {
                    v.push(s);
                    if v.len() == k {
                        break;
                    }
                }
            }
            v.extend(it);
            same("extend", &v, want)
        }
    }
}

struct W<C>(C);
impl<C> Dyn for W<C>
where
    C: Chunk + ToChunkIncr + Clone + Debug + 'static,
    C::Incr: Debug + 'static,
    C::SearchState: Debug + 'static,
{
    fn debug(&self, data: &[u8]) -> usize {
        let mut i = self.0.to_chunk_incr();
        let mut s = self.0.to_search_state();
        let _ = i.push(data);
        let _ = self.0.find_chunk_edge(&mut s, data);
        let own = format!("{:?} {:?} {:?} {:#?}", self.0, i, s, s).len();
        own + format!("{:?}", i.iter_slices(data)).len()
    }
    fn incr(&self) -> Box<dyn ChunkIncr> {
        Box::new(self.0.to_chunk_incr())
    }
    fn search(&self) -> Box<dyn Search> {
        Box::new(Own { c: self.0.clone(), s: self.0.to_search_state() })
    }
    fn dup(&self) -> Box<dyn Dyn> {
        Box::new(W(self.0.clone()))
    }
    fn slices<'a>(&self, data: &'a [u8], limit: usize) -> (Slices<'a>, Box<dyn ChunkIncr>, &'a [u8]) {
        let mut it = self.0.to_chunk_incr().iter_slices(data);
        let mut v = vec![];
        while v.len() < limit {
            match it.next() {
                Some(s) => v.push(s),
                None => break,
            }
        }
        let (c, rem) = it.into_parts();
        (v, Box::new(c), rem)
    }
    fn adapters<'a>(&self, data: &'a [u8], strict: bool, want: &[&'a [u8]], how: usize, j: usize) -> Result<(), String> {
        self.adapt(data, strict, want, how, j)
    }
    fn slices_after<'a>(&self, pre: &[u8], data: &'a [u8], limit: usize) -> Slices<'a> {
        let mut c = self.0.to_chunk_incr();
        let _ = feed_rest(&mut c, pre);
        c.iter_slices(data).take(limit).collect()
    }
    fn strict<'a>(&self, data: &'a [u8], limit: usize, take: bool) -> (Slices<'a>, Box<dyn ChunkIncr>, &'a [u8], &'a [u8]) {
        let mut it = self.0.to_chunk_incr().iter_slices_strict(data);
        let mut v = vec![];
        while v.len() < limit {
            match it.next() {
                Some(s) => v.push(s),
                None => break,
            }
        }
        if take {
            let r = it.take_rem();
            let (c, r2) = it.into_parts();
            (v, Box::new(c), r, r2)
        } else {
            let (c, r) = it.into_parts();
            (v, Box::new(c), r, &[])
        }
    }
}

impl<C> W<C>
where
    C: Chunk + ToChunkIncr + Clone + Debug + 'static,
{
    fn adapt<'a>(&self, data: &'a [u8], strict: bool, want: &[&'a [u8]], how: usize, j: usize) -> Result<(), String> {
        let c = self.0.to_chunk_incr();
        let r = if strict { adapters(c.iter_slices_strict(data), want, how, j) } else { adapters(c.iter_slices(data), want, how, j) };
        r.map_err(|e| format!("{}: {}", if strict { "iter_slices_strict" } else { "iter_slices" }, e))
    }
}

pub fn make_of<C>(c: C) -> Box<dyn Dyn>
where
    C: Chunk + ToChunkIncr + Clone + Debug + 'static,
    C::Incr: Debug + 'static,
    C::SearchState: Debug + 'static,
{
    Box::new(W(c))
}

pub fn make(cfg: &Cfg) -> Box<dyn Dyn> {
    with_alg!(cfg, c => Box::new(W(c)))
}

thread_local! {
    /// Most cuts worth listing (streams beyond 4 GiB, where a wrong position could list billions).
    pub static LIMIT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
pub fn limit(n: usize) -> Result<(), String> {
    if n > LIMIT.with(|l| l.get()) {
        return Err(format!("more than {} cuts", n - 1));
    }
    Ok(())
}

/// Feed `data` completely, re-feeding the rest after every cut.
pub fn feed_rest<I: ChunkIncr + ?Sized>(c: &mut I, data: &[u8]) -> Result<Vec<usize>, String> {
    drive_incr(c, data, &[data.len()], 0).map(|v| v.into_iter().map(|x| x.0).collect())
}

/// One push with the checks that hold for every call.
pub fn push<I: ChunkIncr + ?Sized>(c: &mut I, piece: &[u8]) -> Result<Option<usize>, String> {
    let r = c.push(piece);
    if let Some(k) = r {
        if k > piece.len() {
            return Err(format!("push of {} bytes returned index {}", piece.len(), k));
        }
    }
    Ok(r)
}

/// Feed a stream in the given pieces. Returns (cut, bytes of the stream fed when it was reported).
/// `style` bit 0: after a cut at the end of a piece, also feed the (empty) rest of the piece;
/// bit 1: every piece is copied to the same place in memory first, as a reading loop does.
pub fn drive_incr<I: ChunkIncr + ?Sized>(
    c: &mut I,
    data: &[u8],
    ends: &[usize],
    style: u8,
) -> Result<Vec<(usize, usize)>, String> {
    let mut out: Vec<(usize, usize)> = vec![];
    let mut pos = 0;
    let mut scratch = vec![];
    for &end in ends {
        let mut zero = 0;
        let from = pos;
        if style & 2 != 0 {
            scratch.resize((end - from).max(scratch.len()), 0);
            scratch[..end - from].copy_from_slice(&data[from..end]);
        }
        loop {
            let piece = if style & 2 != 0 { &scratch[pos - from..end - from] } else { &data[pos..end] };
            match push(c, piece)? {
                None => {
                    pos = end;
                    break;
                }
                Some(k) => {
                    let cut = pos + k;
                    if k == 0 {
                        zero += 1;
                        if zero > 1 {
                            return Err(format!("no progress: cut {} (piece {}..{}) reported again and again", cut, pos, end));
                        }
                    } else {
                        zero = 0;
                    }
                    if cut <= out.last().map_or(0, |x| x.0) {
                        return Err(format!(
                            "cut {} does not follow the previous cut {:?} (piece {}..{})",
                            cut,
                            out.last(),
                            pos,
                            end
                        ));
                    }
                    out.push((cut, end));
                    limit(out.len())?;
                    pos = cut;
                    if pos == end && style & 1 == 0 {
                        break;
                    }
                }
            }
        }
    }
    Ok(out)
}

#[derive(Debug, Default, Clone)]
pub struct FceLog {
    /// (cut, end of the buffer when it was reported)
    pub cuts: Vec<(usize, usize)>,
    /// most bytes the search asked to keep when it found nothing
    pub max_keep: usize,
    /// most bytes before a reported cut that it asked to keep
    pub max_back: usize,
    pub calls: usize,
}
impl FceLog {
    pub fn pos(&self) -> Vec<usize> {
        self.cuts.iter().map(|x| x.0).collect()
    }
}

/// Search a stream through a buffer that grows to each of `ends` in turn.
/// `style` bit 0: let the buffer grow before the next call even after a cut;
/// bit 1: after "nothing found", call once more without growth;
/// bit 2: after the end, call once more;
/// bit 3: the buffer stays at one place in memory, the dropped bytes are moved out (short data only).
pub fn drive_fce(s: &mut dyn Search, data: &[u8], ends: &[usize], style: u8) -> Result<FceLog, String> {
    let mut log = FceLog::default();
    let mut base = 0usize;
    let mut last = 0usize;
    let mut ei = 0;
    let mut again = 0;
    let budget = 4 * data.len() + 4 * ends.len() + 64;
    if ends.is_empty() {
        return Ok(log);
    }
    let fixed = style & 8 != 0 && data.len() <= 50_000;
    let mut scratch = vec![0; if fixed { data.len() } else { 0 }];
    // what scratch holds
    let mut held = 0..0;
    loop {
        let end = ends[ei].max(base);
        let buf = if fixed {
            if held.start < base {
                let a = (base - held.start).min(held.end - held.start);
                scratch.copy_within(a..held.end - held.start, 0);
                held = base..held.end.max(base);
            }
            if end > held.end {
                scratch[held.end - base..end - base].copy_from_slice(&data[held.end..end]);
                held.end = end;
            }
            &scratch[..end - base]
        } else {
            &data[base..end]
        };
        log.calls += 1;
        if log.calls > budget {
            return Err(format!("no progress: {} calls for {} bytes, buffer {}..{}", log.calls, data.len(), base, end));
        }
        let (cut, disc) = s.find(buf);
        if disc > buf.len() {
            return Err(format!("buffer of {} bytes, discard count {}", buf.len(), disc));
        }
        match cut {
            Some(k) => {
                if k > buf.len() {
                    return Err(format!("buffer of {} bytes, cut at {}", buf.len(), k));
                }
                let c = base + k;
                if c <= last {
                    return Err(format!("cut {} does not follow the previous cut {} (buffer {}..{})", c, last, base, end));
                }
                last = c;
                log.cuts.push((c, end));
                limit(log.cuts.len())?;
                base += disc;
                log.max_back = log.max_back.max(c.saturating_sub(base));
                again = 0;
                if style & 1 != 0 && ei + 1 < ends.len() {
                    ei += 1;
                }
            }
            None => {
                base += disc;
                log.max_keep = log.max_keep.max(end - base);
                if style & 2 != 0 && again == 0 {
                    again = 1;
                    continue;
                }
                again = 0;
                if ei + 1 < ends.len() {
                    ei += 1;
                } else {
                    break;
                }
            }
        }
    }
    if style & 4 != 0 {
        let end = data.len();
        let (cut, disc) = s.find(&data[base..end]);
        if disc > end - base {
            return Err(format!("after the end: buffer of {} bytes, discard count {}", end - base, disc));
        }
        if cut.is_some() {
            return Err(format!("after the end: the same buffer now has a cut {:?}", cut));
        }
    }
    Ok(log)
}

/// Search a stream through one buffer of `size` bytes (more than the window) that is topped up
/// after every call (`lazy`: only after calls that found nothing).
pub fn drive_fce_refill(s: &mut dyn Search, data: &[u8], size: usize, lazy: bool) -> Result<Vec<usize>, String> {
    let mut buf = vec![0u8; size];
    let (mut base, mut have, mut fill) = (0, 0, true);
    let mut cuts = vec![];
    let mut calls = 0;
    loop {
        calls += 1;
        if calls > 4 * data.len() + 64 {
            return Err("no progress".into());
        }
        if fill {
            let n = (size - have).min(data.len() - base - have);
            buf[have..have + n].copy_from_slice(&data[base + have..base + have + n]);
            have += n;
        }
        let (cut, disc) = s.find(&buf[..have]);
        if disc > have || cut.map_or(false, |k| k > have) {
            return Err(format!("buffer of {} bytes: cut {:?}, discard {}", have, cut, disc));
        }
        if let Some(k) = cut {
            cuts.push(base + k);
        } else if base + have == data.len() {
            return Ok(cuts);
        }
        fill = cut.is_none() || !lazy;
        buf.copy_within(disc..have, 0);
        base += disc;
        have -= disc;
        if cut.is_none() && have == size {
            return Err(format!("a buffer of {} bytes is not enough", size));
        }
    }
}

/// Search a stream whose kept bytes are overwritten with noise while they are neither new nor
/// leave the window `w` with this call: an implementation that looks at every byte when it enters
/// and when it leaves the window finds the same cuts.
pub fn drive_fce_noise(s: &mut dyn Search, data: &[u8], ends: &[usize], w: usize, seed: u64) -> Result<Vec<usize>, String> {
    let mut v = data.to_vec();
    let mut r = crate::rng::Rng::new(seed);
    let mut cuts = vec![];
    // stream positions lo..hi hold noise; everything before `seen` has been searched
    let (mut lo, mut hi, mut seen, mut base) = (0usize, 0usize, 0usize, 0usize);
    let mut calls = 0;
    for &end in ends {
        loop {
            calls += 1;
            if calls > 4 * data.len() + 4 * ends.len() + 64 {
                return Err("no progress".into());
            }
            let end = end.max(base);
            let leaving = end.saturating_sub(w);
            let to = leaving.min(hi).max(lo);
            v[lo..to].copy_from_slice(&data[lo..to]);
            lo = to;
            let from = hi.max(leaving).min(seen.max(hi));
            if from > hi {
                lo = from;
            }
            for b in &mut v[from..seen.max(from)] {
                *b = r.byte();
            }
            hi = seen.max(from);
            let buf = &v[base..end];
            let (cut, disc) = s.find(buf);
            if disc > buf.len() || cut.map_or(false, |k| k > buf.len()) {
                return Err(format!("buffer of {} bytes: cut {:?}, discard {}", buf.len(), cut, disc));
            }
            seen = end;
            if let Some(k) = cut {
                cuts.push(base + k);
                seen = base + k;
            }
            base += disc;
            if cut.is_none() {
                break;
            }
        }
    }
    Ok(cuts)
}

pub fn incr_cuts(d: &dyn Dyn, data: &[u8], ends: &[usize], style: u8) -> Result<Vec<usize>, String> {
    Ok(drive_incr(&mut *d.incr(), data, ends, style)?.into_iter().map(|x| x.0).collect())
}
pub fn fce_cuts(d: &dyn Dyn, data: &[u8], ends: &[usize], style: u8) -> Result<Vec<usize>, String> {
    Ok(drive_fce(&mut *d.search(), data, ends, style)?.pos())
}

pub fn diff(what: &str, a: &[usize], b: &[usize]) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    Err(format!(
        "{}: differ at cut #{}: {:?} vs {:?} ({} vs {} cuts)",
        what,
        i,
        a.get(i),
        b.get(i),
        a.len(),
        b.len()
    ))
}
