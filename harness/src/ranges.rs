//! C22: the range helpers against the standard library.
use crate::run::Log;
use crate::strat::Case;
use hash_roll::range::{bound_cloned, RangeExt};
use std::fmt::Debug;
use std::ops::Bound::{self, *};
use std::ops::RangeBounds;

fn one<T, R>(r: R, lo: Bound<T>, hi: Bound<T>, item: T, what: &str) -> Result<(), String>
where
    T: PartialOrd + Copy + Debug,
    R: RangeBounds<T> + Clone,
{
    let below = match lo {
        Included(x) => item < x,
        Excluded(x) => item <= x,
        Unbounded => false,
    };
    let above = match hi {
        Included(x) => item > x,
        Excluded(x) => item >= x,
        Unbounded => false,
    };
    let name = || format!("{} {:?}..{:?}, item {:?}", what, lo, hi, item);
    let std = RangeBounds::contains(&r, &item);
    if RangeExt::contains(&r, &item) != std {
        return Err(format!("{}: contains is {}, std's {}", name(), RangeExt::contains(&r, &item), std));
    }
    if r.under_min(&item) != below {
        return Err(format!("{}: under_min is {}", name(), r.under_min(&item)));
    }
    if r.exceeds_max(&item) != above {
        return Err(format!("{}: exceeds_max is {}", name(), r.exceeds_max(&item)));
    }
    if (below || above) == std {
        return Err(format!("{}: model and std disagree", name()));
    }
    let t = RangeExt::into_tuple(r.clone());
    if t != (lo, hi) {
        return Err(format!("{}: into_tuple is {:?}", name(), t));
    }
    if RangeBounds::contains(&t, &item) != std {
        return Err(format!("{}: the tuple does not contain the same", name()));
    }
    if bound_cloned(r.start_bound()) != lo || bound_cloned(r.end_bound()) != hi {
        return Err(format!("{}: bound_cloned", name()));
    }
    Ok(())
}

fn all<T: PartialOrd + Copy + Debug>(k0: u32, k1: u32, a: T, b: T, item: T) -> Result<(), String> {
    let mk = |k: u32, x: T| match k % 3 {
        0 => Included(x),
        1 => Excluded(x),
        _ => Unbounded,
    };
    let (lo, hi) = (mk(k0, a), mk(k1, b));
    one((lo, hi), lo, hi, item, "bounds")?;
    one((lo.as_ref(), hi.as_ref()), lo, hi, item, "bounds by reference")?;
    match (lo, hi) {
        (Included(a), Excluded(b)) => one(a..b, lo, hi, item, "a..b")?,
        (Included(a), Included(b)) => one(a..=b, lo, hi, item, "a..=b")?,
        (Included(a), Unbounded) => one(a.., lo, hi, item, "a..")?,
        (Unbounded, Excluded(b)) => one(..b, lo, hi, item, "..b")?,
        (Unbounded, Included(b)) => one(..=b, lo, hi, item, "..=b")?,
        (Unbounded, Unbounded) => one(.., lo, hi, item, "..")?,
        _ => {}
    }
    Ok(())
}

pub fn c22(c: &Case, log: &mut Log) -> Result<(), String> {
    let k = &c.knobs;
    let (k0, k1) = (k[0], k[1]);
    // the item lies at, or one to a few steps off, one of the bounds; or anywhere
    let wide = |x: u32, y: u32| -> u64 {
        let base = match x % 8 {
            0 => 0,
            1 => u64::MAX,
            2 => 1 << (y % 64),
            3 => (1u64 << (y % 64)).wrapping_sub(1),
            4 => u64::MAX - (y as u64 % 5),
            _ => (y as u64) % 40,
        };
        base
    };
    let a = wide(k[2], k[3]);
    let b = wide(k[4], k[5]);
    let near = |k: u32| -> i64 { (k % 5) as i64 - 2 };
    let item = match k[6] % 5 {
        0 | 1 => a.wrapping_add(near(k[7]) as u64),
        2 | 3 => b.wrapping_add(near(k[7]) as u64),
        _ => wide(k[8], k[9]),
    };
    all(k0, k1, a, b, item)?;
    all(k0, k1, a as i64, b as i64, item as i64)?;
    all(k0, k1, a as u8, b as u8, item as u8)?;
    all(k0, k1, a as i8, b as i8, item as i8)?;
    all(k0, k1, a as u32, b as u32, item as u32)?;
    let u = u128::from(a) << 64 | u128::from(b);
    all(k0, k1, u, u.rotate_left(64), u128::from(item) << 64)?;
    let f = |x: u64| (x as i64 as f64) / 4.0;
    all(k0, k1, f(a), f(b), f(item))?;
    let ch = |x: u64| char::from_u32((x % 0xd800) as u32).unwrap();
    all(k0, k1, ch(a), ch(b), ch(item))?;
    all(k0, k1, (a as u8, b as u8), (b as u8, a as u8), (item as u8, a as u8))?;
    all(k0, k1, "abc".get(..(a % 4) as usize), "abd".get(..(b % 4) as usize), "abcd".get(..(item % 5) as usize))?;
    all(k0, k1, a % 2 == 0, b % 2 == 0, item % 2 == 0)?;
    // bound_cloned of a type that is not Copy
    let s = format!("{}", a);
    let bc = bound_cloned(match k0 % 3 {
        0 => Included(&s),
        1 => Excluded(&s),
        _ => Unbounded,
    });
    let want = match k0 % 3 {
        0 => Included(s.clone()),
        1 => Excluded(s.clone()),
        _ => Unbounded,
    };
    if bc != want {
        return Err(format!("bound_cloned: {:?}, expected {:?}", bc, want));
    }
    let d = |x: u64| (item as i128 - x as i128).abs();
    log.nontrivial = d(a) <= 1 || d(b) <= 1;
    log.label(&format!("bounds:{}{}", k0 % 3, k1 % 3));
    log.label_if(a > b, "empty-or-inverted");
    Ok(())
}
