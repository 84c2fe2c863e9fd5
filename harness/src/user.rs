//! A chunker of the user's own (anything that implements `ChunkIncr`) behind the slice iterations.
//!
//! It cuts where a script says, and notes the bytes it is given: neither Debug, Clone nor 'static.
use crate::drive::{adapters, HOWS};
use crate::run::Log;
use crate::strat::Case;
use hash_roll::ChunkIncr;

type R = Result<(), String>;

struct Script<'s> {
    /// lengths of the chunks
    gaps: &'s [usize],
    done: usize,
    /// bytes of the current chunk so far
    have: usize,
    seen: &'s std::cell::RefCell<Vec<u8>>,
}
impl ChunkIncr for Script<'_> {
    fn push(&mut self, data: &[u8]) -> Option<usize> {
        match self.gaps.get(self.done) {
            Some(g) if g - self.have <= data.len() => {
                let k = g - self.have;
                self.seen.borrow_mut().extend_from_slice(&data[..k]);
                self.done += 1;
                self.have = 0;
                Some(k)
            }
            _ => {
                self.seen.borrow_mut().extend_from_slice(data);
                self.have += data.len();
                None
            }
        }
    }
}

pub fn slices(c: &Case, log: &mut Log) -> R {
    let mut data = c.data(1);
    data.truncate(4000);
    let n = data.len();
    let mut r = crate::rng::Rng::new(c.knob(6) as u64 ^ 0x5c21);
    // chunk lengths: the last one may end with the data, or beyond
    let most = 1 + r.below(if c.knob(7) % 3 == 0 { 9 } else { 300 }) as usize;
    let mut gaps = vec![];
    let mut sum = 0;
    while sum <= n {
        let g = match r.below(8) {
            0 => 1,
            1 if sum < n => n - sum,
            _ => 1 + r.below(most as u64) as usize,
        };
        gaps.push(g);
        sum += g;
    }
    let mut cuts = vec![];
    let mut p = 0;
    for g in &gaps {
        p += g;
        if p <= n {
            cuts.push(p);
        }
    }
    let seen = std::cell::RefCell::new(vec![]);
    let mk = || {
        seen.borrow_mut().clear();
        Script { gaps: &gaps, done: 0, have: 0, seen: &seen }
    };
    let mut complete: Vec<&[u8]> = vec![];
    let mut p = 0;
    for k in &cuts {
        complete.push(&data[p..*k]);
        p = *k;
    }
    let tail = &data[p..];
    let mut all = complete.clone();
    if !tail.is_empty() {
        all.push(tail);
    }
    let at = |s: &[u8]| (s.as_ptr() as usize, s.len());
    let id = |v: &[&[u8]]| -> Vec<(usize, usize)> { v.iter().map(|s| at(s)).collect() };
    // how far the iterations are run
    for j in [all.len() + 1, c.knob(1) % (all.len() + 1)] {
        let mut it = mk().iter_slices(&data);
        let got: Vec<&[u8]> = it.by_ref().take(j).collect();
        let want = &all[..j.min(all.len())];
        if id(&got) != id(want) {
            return Err(format!("iter_slices of a chunker that cuts at {:?}: {:?} of {} bytes", cuts, got.iter().map(|s| s.len()).collect::<Vec<_>>(), n));
        }
        let (ch, rest) = it.into_parts();
        let fed = want.iter().map(|s| s.len()).sum::<usize>();
        if *seen.borrow() != data[..fed] {
            return Err(format!("iter_slices: the chunker was given {} bytes for the first {}", seen.borrow().len(), fed));
        }
        if rest.len() != n - fed || (!rest.is_empty() && at(rest) != at(&data[fed..])) || ch.done != want.len().min(cuts.len()) {
            return Err(format!("iter_slices stopped after {} items: rest {} of {}, chunker at chunk {}", j, rest.len(), n, ch.done));
        }
        let take = c.knob(2) % 2 == 1;
        let mut it = mk().iter_slices_strict(&data);
        let mut got: Vec<&[u8]> = vec![];
        while got.len() < j {
            match it.next() {
                Some(s) => got.push(s),
                None => break,
            }
        }
        let want = &complete[..j.min(complete.len())];
        if id(&got) != id(want) {
            return Err(format!("iter_slices_strict of a chunker that cuts at {:?}: {:?} of {} bytes", cuts, got.iter().map(|s| s.len()).collect::<Vec<_>>(), n));
        }
        let fed = want.iter().map(|s| s.len()).sum::<usize>();
        let ended = j > complete.len();
        let taken = if take { it.take_rem() } else { &[] };
        let (ch, left) = it.into_parts();
        let rest = if take { taken } else { left };
        if rest.len() != n - fed || (!rest.is_empty() && at(rest) != at(&data[fed..])) || (take && !left.is_empty()) {
            return Err(format!("iter_slices_strict stopped after {} items: rest {} and {} of {}", j, rest.len(), left.len(), n));
        }
        if ch.done != want.len() || *seen.borrow() != data[..if ended { n } else { fed }] {
            return Err(format!("iter_slices_strict: the chunker was given {} of {} bytes in {} items", seen.borrow().len(), n, j));
        }
    }
    let (h, j) = (c.knob(3), c.knob(4));
    adapters(mk().iter_slices(&data), &all, h, j)?;
    adapters(mk().iter_slices_strict(&data), &complete, h / HOWS, j / 3)?;
    log.label("user-chunker");
    log.label_if(tail.is_empty() && n > 0, "user-chunker:cut-at-end");
    Ok(())
}
