//! Bytes that complete a chunk where trial and error would not find them: many-bit conditions are
//! solved for (by the definition of the hash, not with the code under test).
use crate::model::{Kind, Model, ZSTD_PRIME};
use crate::rng::Rng;
use crate::tables;
use std::cell::RefCell;
use std::rc::Rc;

/// Conditions of at most this many bits are met by trying bytes.
const EASY: u32 = 14;

/// Mostly nothing, sometimes one of the `bits` low bits: the condition is then missed by that bit.
fn miss(bits: u32, r: &mut Rng) -> u64 {
    let x = r.next();
    if x & 7 == 0 { 1 << (x >> 8) % bits as u64 } else { 0 }
}

/// Bytes to append to the model's current chunk so that it ends with them (or all but does).
pub fn solve(m: &Model, r: &mut Rng) -> Option<Vec<u8>> {
    match &m.kind {
        Kind::Pigz { bits } if *bits > EASY => Some(pigz(&m.chunk, *bits, r)),
        Kind::Gear { mask } if mask.count_ones() > EASY => gear(&m.chunk, *mask, r),
        Kind::Buz { k, mask, max, t } if mask.count_ones() > EASY && *k >= 4 && *max > m.chunk.len() as u64 + 8 => buz(&m.chunk, *k, *mask, t, r),
        Kind::Zpaq { thr, .. } if thr.leading_zeros() >= 31 + EASY && r.next() & 3 == 0 => {
            let t = match r.next() & 15 {
                0..=3 => *thr as u32,
                4 => (*thr as u32).wrapping_add(1),
                5 => 0,
                6 => u32::MAX,
                7 => (*thr as u32).wrapping_mul(2),
                8 => r.below(*thr) as u32,
                9 => 1 << r.below(32),
                _ => *thr as u32 - 1,
            };
            let (h, c1, o1) = m.zpaq_state();
            zpaq(h, c1, o1, t, r)
        }
        _ => None,
    }
}

/// Five bytes after which zpaq's hash is `goal`: four the order-1 table does not predict (two from each side
/// of a meeting in the middle) and one it does.
fn zpaq(h: u32, c1: u8, o1: &[u8; 256], goal: u32, r: &mut Rng) -> Option<Vec<u8>> {
    const HIT: u32 = 314159265;
    const MISS: u32 = 271828182;
    let inv = |a: u32| (0..6).fold(1u32, |x, _| x.wrapping_mul(2u32.wrapping_sub(a.wrapping_mul(x))));
    let (inv_hit, inv_half) = (inv(HIT), inv(MISS / 2));
    let pairs = ZPAQ.with(|p| {
        p.borrow_mut()
            .get_or_insert_with(|| {
                let mut v: Vec<(u32, u16)> = (0..65536u32)
                    .map(|x| (((x >> 8) + 1).wrapping_mul(MISS).wrapping_add((x & 255) + 1).wrapping_mul(MISS), x as u16))
                    .collect();
                v.sort();
                Rc::new(v)
            })
            .clone()
    });
    let base = h.wrapping_mul(MISS).wrapping_mul(MISS);
    let start = r.below(65536) as u32;
    for j in 0..65536u32 {
        let yz = (start + j) & 0xffff;
        let (y, z) = ((yz >> 8) as u8, yz as u8);
        let w = o1[z as usize];
        // goal = (h4 + w + 1) * HIT, h4 = (h3 + z + 1) * MISS, h3 = (h2 + y + 1) * MISS
        let h4 = goal.wrapping_mul(inv_hit).wrapping_sub(w as u32 + 1);
        if h4 & 1 == 1 {
            continue;
        }
        for k in 0..4u32 {
            let h3 = (h4 >> 1).wrapping_mul(inv_half).wrapping_add(k << 31).wrapping_sub(z as u32 + 1);
            if h3 & 1 == 1 {
                continue;
            }
            let h2 = (h3 >> 1).wrapping_mul(inv_half).wrapping_add(k >> 1 << 31).wrapping_sub(y as u32 + 1);
            let need = h2.wrapping_sub(base);
            let i = pairs.partition_point(|p| p.0 < need);
            if i == pairs.len() || pairs[i].0 != need {
                continue;
            }
            let vx = pairs[i].1;
            let out = vec![(vx >> 8) as u8, vx as u8, y, z, w];
            // collisions in the table
            let (mut g, mut last, mut t) = (h, c1, *o1);
            for c in &out {
                let m = if t[last as usize] == *c { HIT } else { MISS };
                g = g.wrapping_add(*c as u32).wrapping_add(1).wrapping_mul(m);
                t[last as usize] = *c;
                last = *c;
            }
            if g == goal {
                return Some(out);
            }
        }
    }
    None
}

/// The byte of age `a` decides bit `a + 7` of the final hash, once the older ones are chosen.
fn pigz(chunk: &[u8], bits: u32, r: &mut Rng) -> Vec<u8> {
    let mask = (1u64 << bits) - 1;
    let mut h = mask >> 1;
    for b in chunk {
        h = (h << 1 ^ *b as u64) & mask;
    }
    let hit = mask >> 1 ^ miss(bits, r);
    let mut out = vec![];
    for age in (0..=bits - 8).rev() {
        let v = if age == 0 {
            ((h << 1) ^ hit) as u8
        } else {
            // bit 7 of the next hash becomes bit 7 + age of the last one
            let want = hit >> (7 + age) & 1;
            let have = (h << 1) >> 7 & 1;
            (r.byte() & 0x7f) | (((want ^ have) as u8) << 7)
        };
        h = (h << 1 ^ v as u64) & mask;
        out.push(v);
    }
    out
}

type Pairs = Rc<Vec<(u32, u16)>>;
thread_local! {
    static ZPAQ: RefCell<Option<Pairs>> = RefCell::new(None);
    static GEAR: RefCell<Option<Pairs>> = RefCell::new(None);
    static BUZ: RefCell<Option<(u32, [u32; 256], Pairs)>> = RefCell::new(None);
}

fn gear(chunk: &[u8], mask: u32, r: &mut Rng) -> Option<Vec<u8>> {
    let g = &tables::GEAR32;
    let pairs = GEAR.with(|p| {
        p.borrow_mut()
            .get_or_insert_with(|| {
                let mut v: Vec<(u32, u16)> =
                    (0..65536u32).map(|x| ((g[(x >> 8) as usize] << 1).wrapping_add(g[(x & 255) as usize]), x as u16)).collect();
                v.sort();
                Rc::new(v)
            })
            .clone()
    });
    let mut fp = 0u32;
    for b in chunk {
        fp = (fp << 1).wrapping_add(g[*b as usize]);
    }
    let tol = !mask; // low bits are free
    let off = (miss(mask.count_ones(), r) as u32).rotate_right(mask.count_ones());
    let start = r.below(65536) as u32;
    for j in 0..65536u32 {
        let x = (start + j) & 0xffff;
        let base = (fp << 4).wrapping_add(g[(x >> 8) as usize] << 3).wrapping_add(g[(x & 255) as usize] << 2);
        let need = off.wrapping_sub(base);
        let i = pairs.partition_point(|p| p.0 < need);
        if i < pairs.len() && pairs[i].0 - need <= tol {
            let y = pairs[i].1;
            return Some(vec![(x >> 8) as u8, x as u8, (y >> 8) as u8, y as u8]);
        }
    }
    None
}

fn buz(chunk: &[u8], k: usize, mask: u32, t: &[u32; 256], r: &mut Rng) -> Option<Vec<u8>> {
    let pairs = BUZ.with(|p| {
        let mut p = p.borrow_mut();
        match &*p {
            Some((m, u, v)) if *m == mask && u == t => v.clone(),
            _ => {
                let mut v: Vec<(u32, u16)> =
                    (0..65536u32).map(|x| ((t[(x >> 8) as usize].rotate_left(1) ^ t[(x & 255) as usize]) & mask, x as u16)).collect();
                v.sort();
                let v = Rc::new(v);
                *p = Some((mask, *t, v.clone()));
                v
            }
        }
    });
    let mut h = 0u32;
    for b in &chunk[chunk.len().saturating_sub(k - 4)..] {
        h = h.rotate_left(1) ^ t[*b as usize];
    }
    // miss by the n-th bit of the mask, or not
    let mut left = miss(mask.count_ones(), r);
    let mut off = 0u32;
    for b in 0..32 {
        if mask >> b & 1 == 1 {
            off |= ((left & 1) as u32) << b;
            left >>= 1;
        }
    }
    let h = h.rotate_left(4) ^ off;
    let start = r.below(65536) as u32;
    for j in 0..65536u32 {
        let x = (start + j) & 0xffff;
        let need = (h ^ t[(x >> 8) as usize].rotate_left(3) ^ t[(x & 255) as usize].rotate_left(2) ^ mask) & mask;
        let i = pairs.partition_point(|p| p.0 < need);
        if i < pairs.len() && pairs[i].0 == need {
            let y = pairs[i].1;
            return Some(vec![(x >> 8) as u8, x as u8, (y >> 8) as u8, y as u8]);
        }
    }
    None
}

/// Twelve bytes such that zstd's hash of (20 given bytes, these) has the low `bits` bits set: the lattice
/// vector near a random choice.
pub fn zstd(tail20: &[u8], bits: u32, r: &mut Rng) -> Option<[u8; 12]> {
    let mask = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let off = miss(bits.min(63), r);
    for attempt in 0..40 {
        let mut base = [0i64; 12];
        for b in base.iter_mut() {
            *b = if attempt < 20 { r.byte() as i64 } else { 61 + (r.byte() % 134) as i64 };
        }
        let h = tail20.iter().map(|b| *b as i64).chain(base.iter().copied()).fold(0u64, |h, b| h.wrapping_mul(ZSTD_PRIME).wrapping_add(b as u64 + 10));
        let res = ((mask ^ off) | (r.next() & !mask)).wrapping_sub(h);
        let mut v = [0i128; 12];
        v[11] = res as i128;
        for (row, a) in tables::ZSTD_BASIS.iter().zip(tables::ZSTD_INV.iter()) {
            let c = (res as i128 * a + (1i128 << 63)) >> 64;
            for i in 0..12 {
                v[i] -= c * row[i] as i128;
            }
        }
        let mut out = [0u8; 12];
        if (0..12).all(|i| {
            let x = base[i] as i128 + v[i];
            out[i] = x as u8;
            (0..256).contains(&x)
        }) {
            return Some(out);
        }
    }
    None
}
