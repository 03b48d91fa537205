//! Workload generators, and conversions between the models and bellframe's types

use bellframe::{row::Row, Bell, PlaceNot, RowBuf, SameStageVec, Stage};

use crate::{model, rng::Rng};

/// A stage: mostly small, sometimes around the 16/17, 22/23, 33/34 or 64/65 boundaries, rarely huge
pub fn stage(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(20) {
        0..=8 => r.range(1, 8),
        9..=13 => r.range(5, 16),
        14..=15 => r.range(15, 24),
        16 => r.range(31, 36),
        17 => r.range(62, 67),
        18 => *r.pick(&[1, 2, 3, 12, 16, 17, 22, 23, 33, 34, 64, 128]),
        _ => {
            if r.chance(1, 4) {
                r.range(254, 300)
            } else {
                r.range(1, 40)
            }
        }
    };
    n.clamp(1, max)
}

pub fn st(n: usize) -> Stage {
    Stage::new(n)
}

/// A permutation: uniform or with structure
pub fn perm(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut p = model::id(n);
    match r.below(13) {
        0 => {}                                // rounds
        1 => p.reverse(),                      // backrounds
        2 => {
            // queens
            p = (0..n).step_by(2).chain((1..n).step_by(2)).collect();
        }
        3 => {
            // a few swaps
            for _ in 0..r.range(1, 3) {
                let (a, b) = (r.below(n), r.below(n));
                p.swap(a, b);
            }
        }
        4 => p.rotate_left(r.below(n)),
        5 => {
            // an involution
            r.shuffle(&mut p);
            let q = p.clone();
            p = model::id(n);
            for c in q.chunks_exact(2) {
                if r.chance(3, 4) {
                    p.swap(c[0], c[1]);
                }
            }
        }
        6 => {
            // one change
            let mut i = 0;
            while i + 1 < n {
                if r.bool() {
                    p.swap(i, i + 1);
                    i += 1;
                }
                i += 1;
            }
        }
        7 => {
            // fixed at the back (e.g. a tenor covering)
            let k = r.range(1, n);
            r.shuffle(&mut p[..k]);
        }
        8 => {
            // fixed at the front
            let k = r.below(n);
            r.shuffle(&mut p[k..]);
        }
        9 => {
            // runs with reversed segments
            let k = r.below(n);
            p[k..].reverse();
            p.rotate_left(r.below(n));
        }
        10 => {
            // cycles of chosen lengths, of places which are (or aren't) next to each other
            let mut places = model::id(n);
            if r.bool() {
                r.shuffle(&mut places);
            }
            let mut rest = &places[..];
            while !rest.is_empty() {
                let (cycle, others) = rest.split_at(r.range(1, rest.len().min(*r.pick(&[2, 3, 7, 40]))));
                for (i, &x) in cycle.iter().enumerate() {
                    p[x] = cycle[(i + 1) % cycle.len()];
                }
                rest = others;
            }
        }
        _ => r.shuffle(&mut p),
    }
    p
}

/// A permutation of chosen cycle lengths (so that the order can be far beyond what a random one's would be)
pub fn perm_of_cycles(r: &mut Rng, max: usize) -> Vec<usize> {
    let few = [2, 3, 4, 5, 7, 8, 9, 11, 13, 16, 17, 19, 23, 25, 27, 29, 31, 32, 37, 41, 43, 47, 49, 53];
    let mut lens: Vec<usize> = match r.below(4) {
        0 => few[..r.range(1, few.len())].iter().copied().filter(|_| r.chance(2, 3)).collect(),
        1 => [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47][..r.range(2, 15)].to_vec(),
        2 => (0..r.range(1, 12)).map(|_| r.range(1, 40)).collect(),
        _ => vec![1 << r.below(8), 3usize.pow(r.below(5) as u32), 5usize.pow(r.below(4) as u32), 7, 11, 13],
    };
    r.shuffle(&mut lens);
    let mut p: Vec<usize> = vec![];
    for len in lens {
        let start = p.len();
        if start + len <= max {
            p.extend((0..len).map(|i| start + (i + 1) % len));
        }
    }
    if p.is_empty() {
        return vec![0];
    }
    if r.chance(2, 3) {
        // the same cycles, but not next to each other
        let mut q: Vec<usize> = (0..p.len()).collect();
        r.shuffle(&mut q);
        p = model::mul(&model::mul(&q, &p), &model::inv(&q));
    }
    p
}

/// A permutation whose order is at most `max_order` (for closures)
pub fn perm_small_order(r: &mut Rng, n: usize, max_order: u128) -> Vec<usize> {
    for _ in 0..20 {
        let p = perm(r, n);
        if model::order(&p) <= max_order {
            return p;
        }
    }
    let mut p = model::id(n);
    if n > 1 {
        p.swap(0, n - 1);
    }
    p
}

/// A power of two, which is smaller if the machine's integers are
pub fn two_to(exponent: usize) -> usize {
    1 << (exponent % usize::BITS as usize)
}

pub fn bell(i: usize) -> Bell {
    Bell::from_index(i)
}
pub fn bells(v: &[usize]) -> Vec<Bell> {
    v.iter().map(|&x| bell(x)).collect()
}
/// Build a row without going through (checked) constructors.  `v` must be a permutation.
pub fn rb(v: &[usize]) -> RowBuf {
    debug_assert!(model::is_perm(v));
    unsafe { RowBuf::from_vec_unchecked(bells(v)) }
}
pub fn ints(r: &Row) -> Vec<usize> {
    r.slice().iter().map(|b| b.index()).collect()
}
/// Build a vec of rows without going through checked functions
pub fn ssv(n: usize, rows: &[Vec<usize>]) -> SameStageVec {
    let all: Vec<Bell> = rows.iter().flatten().map(|&b| bell(b)).collect();
    unsafe { SameStageVec::from_bell_vec_unchecked(all, st(n)) }
}
pub fn ssv_rows(v: &SameStageVec) -> Vec<Vec<usize>> {
    v.iter().map(ints).collect()
}

pub fn show(v: &[usize]) -> String {
    v.iter().map(|&b| model::bell_name(b)).collect()
}

/// A list of places which is a valid notation (not necessarily with its implicit places)
pub fn places(r: &mut Rng, n: usize) -> Vec<usize> {
    for _ in 0..50 {
        let k = r.range(1, n.min(1 + r.below(6)));
        let mut p = model::id(n);
        r.shuffle(&mut p);
        p.truncate(k);
        if model::pn_faults(&p, n).is_empty() {
            return p;
        }
    }
    vec![r.below(n)]
}

/// Full places of a random change
pub fn full_places(r: &mut Rng, n: usize) -> Vec<usize> {
    if n % 2 == 0 && r.chance(1, 3) {
        return vec![];
    }
    let mut out = vec![];
    let mut i = 0;
    let stick = r.range(1, 4);
    while i < n {
        if i + 1 == n || r.chance(1, 1 + stick) {
            out.push(i);
            i += 1;
        } else {
            i += 2;
        }
    }
    out
}

/// Build a `PlaceNot` from full places
pub fn pn(full: &[usize], n: usize) -> PlaceNot {
    if full.is_empty() {
        PlaceNot::cross(st(n)).unwrap()
    } else {
        let mut v = full.to_vec();
        v.sort();
        unsafe { PlaceNot::from_sorted_slice(&v, st(n)).unwrap() }
    }
}

/// Full places of a PlaceNot, read through its public interface
pub fn pn_places(p: &PlaceNot) -> Vec<usize> {
    (0..p.stage().num_bells()).filter(|&i| p.contains(i)).collect()
}

const NASTY: &[char] = &[
    '\0', '\n', '\r', '\t', ' ', ',', '.', '+', '-', 'x', 'X', '*', '1', '2', '3', '4', '5', '6', '7', '8', '9', '0',
    'E', 'T', 'A', 'Z', 'e', 't', 'I', 'O', 'é', 'ß', '🦀', '\u{200b}', '\u{feff}', '\u{202e}', '١', '１', 'Ⅷ', '"', '\\',
    '{', '}', '[', ']', ':', '\u{10ffff}', '\u{85}', '\u{2028}', 'İ', 'ſ',
];

/// Arbitrary text, biased towards the meaningful chars of every notation
pub fn text(r: &mut Rng, max: usize) -> String {
    let len = r.below(max + 1);
    let mode = r.below(5);
    (0..len)
        .map(|_| match mode {
            0 => *r.pick(NASTY),
            1 => model::NAMES.chars().nth(r.below(33)).unwrap(),
            2 => *r.pick(&['1', '2', '3', '4', '5', '6', '7', '8', 'x', '-', '.', ',', '+', ' ', '*', '\n']),
            3 => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
            _ => {
                if r.chance(1, 6) {
                    *r.pick(NASTY)
                } else {
                    model::NAMES.chars().nth(r.below(10)).unwrap()
                }
            }
        })
        .collect()
}

/// Sprinkle chars which the parsers have to ignore
pub fn sprinkle(r: &mut Rng, s: &str, ignored: &[char]) -> String {
    let mut out = String::new();
    for c in s.chars() {
        while r.chance(1, 6) {
            out.push(*r.pick(ignored));
        }
        out.push(c);
    }
    while r.chance(1, 4) {
        out.push(*r.pick(ignored));
    }
    out
}

/// An iterator which gives a size hint of its own, and can go on after it has ended
#[derive(Clone)]
pub struct Hinted<I: Iterator> {
    iter: I,
    hint: (usize, Option<usize>),
    end_at: usize,
}

impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.end_at == 0 {
            self.end_at = usize::MAX;
            return None;
        }
        self.end_at -= 1;
        self.hint = (self.hint.0.saturating_sub(1), self.hint.1.map(|m| m.saturating_sub((m < usize::MAX) as usize)));
        self.iter.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

/// An iterator whose size hint is true, but says less than it could
pub fn vague<I: Iterator>(r: &mut Rng, iter: I) -> Hinted<I> {
    let (min, max) = iter.size_hint();
    let hint = match r.below(5) {
        0 => (0, None),
        1 => (0, max),
        2 => (min, max.map(|m| m + 7)),
        3 => (min / 2, Some(usize::MAX)),
        _ => (min, max),
    };
    Hinted { iter, hint, end_at: usize::MAX }
}

/// An iterator whose size hint may be wrong, and which may go on after its end
pub fn untrue<I: Iterator>(r: &mut Rng, iter: I) -> Hinted<I> {
    let k = *r.pick(&[0, 0, 1, 2, 3, 8, 100]);
    let hint = match r.below(4) {
        0 => (0, Some(k)),
        1 => (k, None),
        2 => (k + 3, Some(k)),
        _ => (k, Some(k)),
    };
    Hinted { iter, hint, end_at: if r.chance(1, 3) { r.below(3) } else { usize::MAX } }
}
