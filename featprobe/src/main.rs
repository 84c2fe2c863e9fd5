//! Prints the cuts of generated inputs for every enabled algorithm, one line per
//! algorithm / configuration / input, so that builds with different features can be compared.
#![allow(unused)]
use hash_roll::{Chunk, ChunkIncr, ToChunkIncr};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

fn inputs(seed: u64, n: usize) -> Vec<Vec<u8>> {
    let mut r = Rng(seed);
    let mut out = vec![];
    for i in 0..n {
        let mut v = vec![];
        let runs = 1 + r.next() % 5;
        for _ in 0..runs {
            let len = r.next() % if i % 8 == 0 { 40_000 } else { 700 };
            let b = r.next();
            match r.next() % 4 {
                0 => (0..len).for_each(|k| v.push((b >> (k % 8)) as u8)),
                1 => (0..len).for_each(|k| v.push((b as u8).wrapping_add(k as u8))),
                _ => (0..len).for_each(|_| v.push((r.next() >> 20) as u8)),
            }
        }
        out.push(v);
    }
    out
}

fn run<C: Chunk + ToChunkIncr>(name: &str, c: &C, data: &[Vec<u8>]) {
    for (i, d) in data.iter().enumerate() {
        let mut cuts: Vec<usize> = vec![];
        let mut st = c.to_search_state();
        let mut base = 0;
        for _ in 0..d.len() + 2 {
            let (cut, disc) = c.find_chunk_edge(&mut st, &d[base..]);
            if let Some(k) = cut {
                cuts.push(base + k);
            }
            base += disc;
            if cut.is_none() {
                break;
            }
        }
        let mut inc: Vec<usize> = vec![];
        let mut ch = c.to_chunk_incr();
        let mut pos = 0;
        for _ in 0..d.len() + 2 {
            match ch.push(&d[pos..]) {
                Some(k) => {
                    pos += k;
                    inc.push(pos)
                }
                None => break,
            }
        }
        println!("{} #{} len {} search {:?} push {:?}", name, i, d.len(), cuts, inc);
    }
}

fn main() {
    let seed: u64 = std::env::args().nth(1).unwrap().parse().unwrap();
    let n: usize = std::env::args().nth(2).unwrap().parse().unwrap();
    let data = inputs(seed, n);
    #[cfg(feature = "bup")]
    {
        run("bup default", &hash_roll::bup::RollSum::default(), &data);
        run("bup 33", &hash_roll::bup::RollSum::with_window(33), &data);
    }
    #[cfg(feature = "buzhash")]
    {
        use hash_roll::buzhash::*;
        run("buzhash nom", &BuzHash::new_nom(7), &data);
        let t = Box::new(hash_roll::buzhash_table::GO_BUZHASH);
        run("buzhash 17", &BuzHash::new(17, 63, BuzHashTableHash::from(&*t), 500), &data);
        run("buzhash owned", &BuzHash::new(40, 0x3f00, BuzHashTableBufHash::from(t.clone()), 5000), &data);
    }
    #[cfg(feature = "fastcdc")]
    {
        use hash_roll::fastcdc::FastCdc;
        run("fastcdc default", &FastCdc::default(), &data);
        run("fastcdc small", &FastCdc::new(&hash_roll::gear_table::GEAR_64, 16, 300, 2000), &data);
    }
    #[cfg(feature = "gear")]
    {
        run("gear default", &hash_roll::gear::Gear32::default(), &data);
        run("gear 5", &hash_roll::gear::Gear32::with_average_size_log2(5), &data);
    }
    #[cfg(feature = "gzip")]
    {
        use hash_roll::gzip::GzipRsyncable;
        run("gzip default", &GzipRsyncable::default(), &data);
        run("gzip small", &GzipRsyncable::with_window_and_modulus(24, 100), &data);
    }
    #[cfg(feature = "mii")]
    {
        run("mii default", &hash_roll::mii::Mii::default(), &data);
        run("mii 2", &hash_roll::mii::Mii::with_w(2), &data);
    }
    #[cfg(feature = "pigz")]
    {
        run("pigz default", &hash_roll::pigz::PigzRsyncable::default(), &data);
        run("pigz 6", &hash_roll::pigz::PigzRsyncable::with_bits(6), &data);
    }
    #[cfg(feature = "ram")]
    {
        run("ram 0", &hash_roll::ram::Ram::with_w(0), &data);
        run("ram 100", &hash_roll::ram::Ram::with_w(100), &data);
    }
    #[cfg(feature = "zpaq")]
    {
        use hash_roll::zpaq::Zpaq;
        run("zpaq default", &Zpaq::default(), &data);
        run("zpaq 10", &Zpaq::with_average_size_pow_2(10), &data);
        run("zpaq max", &Zpaq::with_max_size(700), &data);
        run("zpaq range", &Zpaq::with_range(10..=300), &data);
        run("zpaq avg", &Zpaq::with_average_and_range(6, ..), &data);
    }
    #[cfg(feature = "zstd")]
    {
        run("zstd default", &hash_roll::zstd::Zstd::default(), &data);
        run("zstd 1M", &hash_roll::zstd::Zstd::with_target_section_size(1 << 20), &data);
    }
}
