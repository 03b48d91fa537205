//! C12-C14: masks, regexes and counting music

use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::OnceLock;

use bellframe::{
    mask::Mask,
    music::{Regex, RegexElem},
    run_len, RowBuf,
};

use crate::{
    ctx::{exhaustive, random, Case, Probe, R},
    ensure, eq,
    gens::{self, bell, ints, rb, show, st},
    model::{self, E, M},
    rng::{hash_usizes, mix, Rng},
};

/// Every row of up to six bells
fn rows_of(n: usize) -> &'static [(Vec<usize>, RowBuf)] {
    static ROWS: OnceLock<Vec<Vec<(Vec<usize>, RowBuf)>>> = OnceLock::new();
    let all = ROWS.get_or_init(|| {
        (0..7)
            .map(|n| if n == 0 { vec![] } else { model::all_perms(n).into_iter().map(|p| (p.clone(), rb(&p))).collect() })
            .collect()
    });
    &all[n]
}

/* ===== C12: MASKS ===== */

pub const C12: &[Probe] = &[
    // 2 + 7 + 34 + 209 + 1546 masks, each against every other mask of its stage
    exhaustive("all-mask-pairs-up-to-5", 1_798, 1_798, all_mask_pairs),
    random("mask-histories", 30_000, mask_history),
    random("mask-pairs", 60_000, mask_pair),
    random("mask-products", 40_000, mask_product),
    random("parsed-masks", 30_000, parsed_masks),
];

/// Every satisfiable mask on `n` bells
fn masks_of(n: usize) -> &'static [M] {
    static MASKS: OnceLock<Vec<Vec<M>>> = OnceLock::new();
    fn go(n: usize, m: &mut M, out: &mut Vec<M>) {
        if m.len() == n {
            out.push(m.clone());
            return;
        }
        for b in std::iter::once(None).chain((0..n).map(Some)) {
            if b.is_none() || !m.contains(&b) {
                m.push(b);
                go(n, m, out);
                m.pop();
            }
        }
    }
    &MASKS.get_or_init(|| {
        (0..6)
            .map(|n| {
                let mut v = vec![];
                if n > 0 {
                    go(n, &mut vec![], &mut v);
                }
                v
            })
            .collect()
    })[n]
}

/// The rows which match every mask, as a bit set
fn mask_sets(n: usize) -> &'static [u128] {
    static SETS: OnceLock<Vec<Vec<u128>>> = OnceLock::new();
    &SETS.get_or_init(|| {
        (0..6)
            .map(|n| {
                masks_of(n)
                    .iter()
                    .map(|m| rows_of(n).iter().enumerate().filter(|(_, (p, _))| model::mask_matches(m, p)).fold(0, |a, (i, _)| a | 1u128 << i))
                    .collect()
            })
            .collect()
    })[n]
}

pub fn mask_text(m: &M) -> String {
    m.iter().map(|b| b.map_or("x".to_owned(), model::bell_name)).collect()
}

/// Build a mask in one of several ways
fn build_mask(r: &mut Rng, m: &M) -> Mask {
    let n = m.len();
    match r.below(4) {
        0 if n <= 33 => Mask::parse(&mask_text(m)),
        1 if m.iter().all(|b| b.is_some()) => Mask::full_row(&rb(&m.iter().map(|b| b.unwrap()).collect::<Vec<_>>())),
        2 if m.iter().enumerate().all(|(i, b)| b.map_or(true, |b| b == i)) => {
            Mask::fix_bells(st(n), gens::vague(r, m.iter().filter_map(|b| b.map(bell))))
        }
        _ => {
            let mut mask = Mask::empty(st(n));
            let mut order = model::id(n);
            r.shuffle(&mut order);
            for i in order {
                if let Some(b) = m[i] {
                    if b == i && r.bool() {
                        mask.fix(bell(b)).unwrap();
                    } else {
                        mask.set_bell(bell(b), i).unwrap();
                    }
                }
            }
            mask
        }
    }
}

/// Check everything that can be asked of one mask
fn check_mask(r: &mut Rng, mask: &Mask, m: &M) -> R {
    let n = m.len();
    let t = mask_text(m);
    eq!(mask.stage().num_bells(), n, "stage of {}", t);
    eq!(mask.unspecified_places().collect::<Vec<_>>(), (0..n).filter(|&i| m[i].is_none()).collect::<Vec<_>>(), "unspecified_places of {}", t);
    eq!(mask.is_empty(), m.iter().all(|b| b.is_none()), "is_empty of {}", t);
    for b in (0..n + 2).chain([100, usize::MAX - 1]) {
        let mut at = (0..n).filter(|&i| m[i] == Some(b));
        let (first, more) = (at.next(), at.next().is_some());
        if !more {
            eq!(mask.place_of(bell(b)), first, "place of {} in {}", model::bell_name(b), t);
        }
    }
    // A row which matches, and rows which nearly do
    let satisfiable = (0..n).all(|i| m[i].map_or(true, |b| b < n && (i + 1..n).all(|j| m[j] != Some(b))));
    if satisfiable {
        let mut free: Vec<usize> = (0..n).filter(|b| !m.contains(&Some(*b))).collect();
        r.shuffle(&mut free);
        let mut row: Vec<usize> = m.iter().map(|b| b.unwrap_or_else(|| free.pop().unwrap())).collect();
        ensure!(mask.matches(&rb(&row)), "{} doesn't match {}", t, show(&row));
        for _ in 0..3 {
            let (i, j) = (r.below(n), r.below(n));
            row.swap(i, j);
            eq!(mask.matches(&rb(&row)), model::mask_matches(m, &row), "whether {} matches {}", t, show(&row));
        }
        let unique = m.iter().filter(|b| b.is_none()).count() <= 1;
        let as_row = mask.as_row().map(|r| ints(&r));
        match (unique, &as_row) {
            (true, Some(p)) => ensure!(model::is_perm(p) && model::mask_matches(m, p), "{} as a row is {:?}", t, p),
            (false, None) => {}
            _ => return Err(format!("{} as a row is {:?}", t, as_row)),
        }
        ensure!(mask.is_subset_of(mask), "{} isn't a subset of itself", t);
        ensure!(mask.is_compatible_with(mask), "{} isn't compatible with itself", t);
        ensure!(mask.combine(mask).as_ref() == Some(mask), "{} combined with itself is {:?}", t, mask.combine(mask));
        let e = Mask::empty(st(n));
        ensure!(mask.is_subset_of(&e), "{} isn't a subset of the empty mask", t);
        eq!(e.is_subset_of(mask), m.iter().all(|b| b.is_none()) || n == 1, "whether the empty mask is a subset of {}", t);
        ensure!(mask.combine(&e).as_ref() == Some(mask), "{} combined with the empty mask is {:?}", t, mask.combine(&e));
        ensure!(e.combine(mask).as_ref() == Some(mask), "the empty mask combined with {} is {:?}", t, e.combine(mask));
    } else {
        let row = gens::perm(r, n);
        ensure!(!mask.matches(&rb(&row)), "{} matches {}", t, show(&row));
        ensure!(mask.as_row().is_none(), "{} as a row is {:?}", t, mask.as_row().map(|r| ints(&r)));
    }
    // Rows of other stages never match
    for d in [n + 1, n.saturating_sub(1)] {
        if d > 0 {
            let p: Vec<usize> = if d > n { (0..d).collect() } else { model::id(d) };
            ensure!(!mask.matches(&rb(&p)), "{} matches a row of {} bells", t, d);
        }
    }
    Ok(())
}

fn all_mask_pairs(c: &mut Case) -> R {
    let mut i = c.idx as usize;
    let mut n = 1;
    while i >= masks_of(n).len() {
        i -= masks_of(n).len();
        n += 1;
    }
    let (masks, sets) = (masks_of(n), mask_sets(n));
    let m = &masks[i];
    let t = mask_text(m);
    c.log(|| format!("mask {} against all {} masks on {} bells", t, masks.len(), n));
    let mask = build_mask(&mut c.rng, m);
    check_mask(&mut c.rng, &mask, m)?;
    let rows = rows_of(n);
    let mut set = 0u128;
    for (k, (_, row)) in rows.iter().enumerate() {
        if mask.matches(row) {
            set |= 1 << k;
        }
    }
    eq!(set, sets[i], "rows matched by {}", t);
    let as_row = mask.as_row().map(|r| ints(&r));
    let e = (set.count_ones() == 1).then(|| rows[set.trailing_zeros() as usize].0.clone());
    eq!(as_row, e, "{} as a row", t);
    for (k, m2) in masks.iter().enumerate() {
        let other = Mask::parse(&mask_text(m2));
        pair_ops(&mask, &other, &t, m2, set & !sets[k] == 0, set & sets[k] != 0)?;
        c.count("pairs of masks");
    }
    c.sig(c.idx);
    Ok(())
}

fn pair_ops(a: &Mask, b: &Mask, ta: &str, mb: &M, subset: bool, overlap: bool) -> R {
    let got = a.is_subset_of(b);
    ensure!(got == subset, "{} is_subset_of {} gave {}", ta, mask_text(mb), got);
    let got = a.is_compatible_with(b);
    ensure!(got == overlap, "{} is_compatible_with {} gave {}", ta, mask_text(mb), got);
    let got = a.combine(b);
    let ok = match &got {
        None => !overlap,
        // (Bells without names are checked by the caller)
        Some(_) if ta.contains('<') || mb.iter().any(|b| b.map_or(false, |b| b >= 33)) => overlap,
        // Exactly the places specified by either
        Some(g) => {
            overlap && {
                let g = g.to_string();
                g.chars().count() == mb.len()
                    && g.chars().zip(ta.chars()).zip(mb).all(|((g, a), b)| match (a, b) {
                        ('x', None) => g == 'x',
                        ('x', Some(b)) => model::bell_of_char(g) == Some(*b),
                        (a, _) => g == a,
                    })
            }
        }
    };
    ensure!(ok, "{} combined with {} gave {:?}", ta, mask_text(mb), got);
    Ok(())
}

fn any_mask(r: &mut Rng, n: usize) -> M {
    let d = r.range(1, 6);
    let one_free = r.chance(1, 5);
    let hole = r.below(n);
    gens::perm(r, n).into_iter().enumerate().map(|(i, b)| if one_free { i != hole } else { r.chance(1, d) }.then_some(b)).collect()
}

fn mask_history(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let n = gens::stage(r, 300);
    let mut m: M = vec![None; n];
    let mut mask = Mask::empty(st(n));
    let steps = r.range(1, 14);
    let mut log = vec![];
    for _ in 0..steps {
        match r.below(10) {
            0..=4 => {
                let (b, p) = (if r.chance(1, 15) { n + r.below(3) } else { r.below(n) }, r.below(n));
                log.push(format!("set {} at {}", b, p));
                let at = m.iter().position(|x| *x == Some(b));
                let res = mask.set_bell(bell(b), p);
                match at {
                    Some(q) if q != p => ensure!(res.is_err(), "setting bell {} (already at {}) at place {} succeeded", b, q, p),
                    _ => {
                        ensure!(res.is_ok(), "setting bell {} (at {:?}) at place {} failed", b, at, p);
                        m[p] = Some(b);
                    }
                }
            }
            5 => {
                let b = r.below(n);
                log.push(format!("fix {}", b));
                let at = m.iter().position(|x| *x == Some(b));
                let res = mask.fix(bell(b));
                match at {
                    Some(q) if q != b => ensure!(res.is_err(), "fixing bell {} (already at {}) succeeded", b, q),
                    _ => {
                        ensure!(res.is_ok(), "fixing bell {} (at {:?}) failed", b, at);
                        m[b] = Some(b);
                    }
                }
            }
            6 => {
                // (m * r)[i] = m[r[i]]
                let p = gens::perm(r, n);
                log.push(format!("* {}", show(&p)));
                mask = &mask * rb(&p).as_row();
                m = p.iter().map(|&x| m[x]).collect();
            }
            7 if m.iter().all(|b| b.map_or(true, |b| b < n)) => {
                let p = gens::perm(r, n);
                log.push(format!("{} *", show(&p)));
                mask = rb(&p).as_row() * &mask;
                m = m.iter().map(|b| b.map(|b| p[b])).collect();
            }
            8 => {
                let m2 = any_mask(r, n);
                let mask2 = build_mask(r, &m2);
                log.push(format!("combine {}", mask_text(&m2)));
                if let Some(x) = mask.combine(&mask2) {
                    mask = x;
                    m = m.iter().zip(&m2).map(|(a, b)| a.or(*b)).collect();
                }
            }
            _ => {
                let bells: Vec<usize> = (0..n).filter(|_| r.chance(1, 3)).collect();
                log.push(format!("fix_bells {:?}", bells));
                mask = Mask::fix_bells(st(n), bells.iter().map(|&b| bell(b)));
                m = (0..n).map(|i| bells.contains(&i).then_some(i)).collect();
            }
        }
        eq!(mask.to_string(), mask_text(&m), "mask after {:?}", log);
    }
    check_mask(r, &mask, &m)?;
    c.count_n("mask operations", log.len() as u64);
    c.log(|| format!("{} -> {}", log.join(", "), mask_text(&m)));
    c.sig(hash_usizes(&m.iter().map(|b| b.map_or(usize::MAX, |b| b)).collect::<Vec<_>>()));
    Ok(())
}

fn mask_pair(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let n = gens::stage(r, 140);
    let a = any_mask(r, n);
    let b = match r.below(4) {
        0 => any_mask(r, n),
        // Related to the first
        1 => a.iter().map(|x| if r.bool() { *x } else { None }).collect(),
        2 => {
            // Add more bells
            let mut b = a.clone();
            let mut free: Vec<usize> = (0..n).filter(|b| !a.contains(&Some(*b))).collect();
            r.shuffle(&mut free);
            for x in b.iter_mut().filter(|x| x.is_none()) {
                let f = free.pop();
                if r.bool() {
                    *x = f;
                }
            }
            b
        }
        _ => {
            let mut b = a.clone();
            let (i, j) = (r.below(n), r.below(n));
            b.swap(i, j);
            if r.bool() {
                b[r.below(n)] = None;
            }
            b
        }
    };
    let (a, b) = if r.bool() { (a, b) } else { (b, a) };
    let (ma, mb) = (build_mask(r, &a), build_mask(r, &b));
    c.log(|| format!("{} and {}", mask_text(&a), mask_text(&b)));
    // Sets, computed from the definitions: `b`'s requirements hold in every row of `a`
    let nones = a.iter().filter(|x| x.is_none()).count();
    let full: M = if nones == 1 {
        let missing = (0..n).find(|x| !a.contains(&Some(*x)));
        a.iter().map(|x| x.or(missing)).collect()
    } else {
        a.clone()
    };
    let subset = full.iter().zip(&b).all(|(x, y)| y.is_none() || x == y);
    let place = |m: &M, b: usize| m.iter().position(|x| *x == Some(b));
    let overlap = (0..n).all(|i| a[i].is_none() || b[i].is_none() || a[i] == b[i])
        && (0..n).all(|x| match (place(&a, x), place(&b, x)) {
            (Some(p), Some(q)) => p == q,
            _ => true,
        });
    pair_ops(&ma, &mb, &mask_text(&a), &b, subset, overlap)?;
    pair_ops_other_stage(&ma, n)?;
    if let Some(m) = ma.combine(&mb) {
        let m2: M = a.iter().zip(&b).map(|(x, y)| x.or(*y)).collect();
        eq!(m.to_string(), mask_text(&m2), "{} combined with {}", mask_text(&a), mask_text(&b));
        check_mask(&mut c.rng, &m, &m2)?;
        ensure!(m.is_subset_of(&ma) && m.is_subset_of(&mb), "{:?} isn't a subset of {:?} and {:?}", m, ma, mb);
    }
    c.count(match (subset, overlap) {
        (true, _) => "subsets",
        (false, true) => "overlapping masks",
        _ => "incompatible masks",
    });
    c.sig(mix(hash_usizes(&a.iter().chain(&b).map(|b| b.map_or(usize::MAX, |b| b)).collect::<Vec<_>>())));
    Ok(())
}

fn pair_ops_other_stage(a: &Mask, n: usize) -> R {
    let e = Mask::empty(st(n + 1));
    ensure!(!a.is_subset_of(&e) && !e.is_subset_of(a), "{:?} and {:?} are subsets", a, e);
    ensure!(!a.is_compatible_with(&e) && !e.is_compatible_with(a), "{:?} and {:?} are compatible", a, e);
    ensure!(a.combine(&e).is_none() && e.combine(a).is_none(), "{:?} and {:?} can be combined", a, e);
    Ok(())
}

fn mask_product(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let n = gens::stage(r, 300);
    let m = any_mask(r, n);
    let mask = build_mask(r, &m);
    let p = gens::perm(r, n);
    let row = rb(&p);
    c.log(|| format!("mask {} and row {}", mask_text(&m), show(&p)));
    let right = &mask * row.as_row();
    let left = row.as_row() * &mask;
    // `m` matches `s` iff `m * r` matches `s * r` iff `r * m` matches `r * s`
    let mut free: Vec<usize> = (0..n).filter(|b| !m.contains(&Some(*b))).collect();
    r.shuffle(&mut free);
    let mut s: Vec<usize> = m.iter().map(|b| b.unwrap_or_else(|| free.pop().unwrap())).collect();
    for _ in 0..4 {
        let e = model::mask_matches(&m, &s);
        eq!(mask.matches(&rb(&s)), e, "{} matches {}", mask_text(&m), show(&s));
        eq!(right.matches(&rb(&model::mul(&s, &p))), e, "{} * {} = {:?} matches {} * {}", mask_text(&m), show(&p), right, show(&s), show(&p));
        eq!(left.matches(&rb(&model::mul(&p, &s))), e, "{} * {} = {:?} matches {} * {}", show(&p), mask_text(&m), left, show(&p), show(&s));
        let (i, j) = (r.below(n), r.below(n));
        s.swap(i, j);
    }
    check_mask(r, &right, &p.iter().map(|&x| m[x]).collect())?;
    check_mask(r, &left, &m.iter().map(|b| b.map(|b| p[b])).collect())?;
    // As a regex, a mask matches the same rows
    let regex = Regex::from(mask.clone());
    eq!(regex.matches(&rb(&s)), model::mask_matches(&m, &s), "regex of {} matches {}", mask_text(&m), show(&s));
    c.count("products");
    c.sig(hash_usizes(&m.iter().map(|b| b.map_or(usize::MAX, |b| b)).chain(p).collect::<Vec<_>>()));
    Ok(())
}

/// Masks which may contain repeated or out-of-stage bells
fn parsed_masks(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let n = r.range(1, 10);
    let m: M = (0..n).map(|_| if r.chance(1, 3) { None } else { Some(r.below(n + 1)) }).collect();
    let t = mask_text(&m);
    c.log(|| t.clone());
    let mask = Mask::parse(&t);
    check_mask(r, &mask, &m)?;
    let b = any_mask(r, n);
    let other = build_mask(r, &b);
    for (x, y) in [(&mask, &other), (&other, &mask)] {
        let comb = x.combine(y);
        eq!(comb.is_some(), x.is_compatible_with(y), "whether {:?} and {:?} can be combined", x, y);
        // Whatever the answer, it's about rows
        let mut s = gens::perm(r, n);
        for _ in 0..3 {
            let e = model::mask_matches(&m, &s) && model::mask_matches(&b, &s);
            if let Some(comb) = &comb {
                eq!(comb.matches(&rb(&s)), e, "{:?} combined with {:?} gave {:?}, matching {}", x, y, comb, show(&s));
            } else {
                ensure!(!e, "{:?} and {:?} both match {} but aren't compatible", x, y, show(&s));
            }
            let (i, j) = (r.below(n), r.below(n));
            s.swap(i, j);
        }
    }
    c.count("parsed masks");
    c.sig(hash_usizes(&m.iter().map(|b| b.map_or(usize::MAX, |b| b)).collect::<Vec<_>>()));
    Ok(())
}

/* ===== C13: REGEXES ===== */

pub const C13: &[Probe] = &[
    exhaustive("all-short-regexes", 3_906, 19_531, |c| {
        let elems = short_regex(c.idx);
        all_rows(c, &elems)
    }),
    random("regexes", 60_000, |c| {
        let n = gens::stage(&mut c.rng, 300);
        one_regex(c, n)
    }),
    random("regexes-from-rows", 60_000, |c| {
        let n = gens::stage(&mut c.rng, 140);
        regex_from_row(c, n)
    }),
];

fn short_regex(mut i: u64) -> Vec<E> {
    let mut len = 0;
    let mut count = 1u64;
    while i >= count {
        i -= count;
        count *= 5;
        len += 1;
    }
    (0..len)
        .map(|_| {
            let d = i % 5;
            i /= 5;
            match d {
                0 => E::B(0),
                1 => E::B(1),
                2 => E::B(2),
                3 => E::Any,
                _ => E::Glob,
            }
        })
        .collect()
}

/// Random (un-normalised) regex elements on bells below `max`
pub fn elems(r: &mut Rng, max: usize) -> Vec<E> {
    let len = if r.chance(1, 40) { r.range(10, 100) } else { r.below(10) };
    let mode = r.below(4);
    (0..len)
        .map(|_| match mode {
            0 => [E::Any, E::Glob, E::B(r.below(max))][r.below(3)],
            1 => [E::Glob, E::B(r.below(max.min(8)))][r.below(2)],
            2 => {
                if r.chance(1, 4) {
                    [E::Any, E::Glob][r.below(2)]
                } else {
                    E::B(r.below(max.min(8)))
                }
            }
            _ => {
                if r.chance(3, 4) {
                    [E::Any, E::Glob][r.below(2)]
                } else {
                    E::B(r.below(max))
                }
            }
        })
        .collect()
}

pub fn elems_text(v: &[E]) -> String {
    v.iter()
        .map(|e| match e {
            E::B(b) => model::bell_name(*b),
            E::Any => "x".to_owned(),
            E::Glob => "*".to_owned(),
        })
        .collect()
}

pub fn to_elem(e: &E) -> RegexElem {
    match e {
        E::B(b) => RegexElem::Bell(bell(*b)),
        E::Any => RegexElem::Any,
        E::Glob => RegexElem::Glob,
    }
}
fn from_elem(e: &RegexElem) -> E {
    match e {
        RegexElem::Bell(b) => E::B(b.index()),
        RegexElem::Any => E::Any,
        RegexElem::Glob => E::Glob,
    }
}

/// Build a regex in every possible way, and check that the results are the same and are normalised
pub fn build_regex(r: &mut Rng, v: &[E]) -> Result<Regex, String> {
    let t = elems_text(v);
    let e = model::regex_normal(v);
    let mut all = vec![
        Regex::from_elems(gens::vague(r, v.iter().map(to_elem))),
        Regex::from_vec(v.iter().map(to_elem).collect()),
        unsafe { Regex::from_elems_unchecked(e.iter().map(to_elem)) },
        unsafe { Regex::from_vec_unchecked(e.iter().map(to_elem).collect()) },
    ];
    let mut n = unsafe { Regex::from_elems_unchecked(v.iter().map(to_elem)) };
    n.normalise();
    all.push(n);
    if v.iter().all(|e| !matches!(e, E::B(b) if *b >= 33)) {
        all.push(Regex::parse(&t));
    }
    if v.iter().all(|e| matches!(e, E::B(_) | E::Any)) && !v.is_empty() {
        // A mask, as long as no bell is repeated
        let m: M = v.iter().map(|e| if let E::B(b) = e { Some(*b) } else { None }).collect();
        if m.iter().enumerate().all(|(i, b)| b.is_none() || m[..i].iter().all(|x| x != b)) {
            let mut mask = Mask::empty(st(m.len()));
            for (i, b) in m.iter().enumerate() {
                if let Some(b) = b {
                    mask.set_bell(bell(*b), i).map_err(|_| "set_bell failed".to_owned())?;
                }
            }
            all.push(Regex::from(mask));
        }
    }
    let hash = |x: &Regex| {
        let mut h = DefaultHasher::new();
        x.hash(&mut h);
        h.finish()
    };
    for x in &mut all {
        eq!(x.elems().iter().map(from_elem).collect::<Vec<_>>(), e, "elements of the regex {}", t);
        let before = x.clone();
        x.normalise();
        ensure!(*x == before, "normalising {:?} again gives {:?}", before, x);
    }
    for x in &all[1..] {
        ensure!(*x == all[0] && hash(x) == hash(&all[0]), "{:?} and {:?} are different", x, all[0]);
    }
    let i = r.below(all.len());
    Ok(all.swap_remove(i))
}

fn check_match(regex: &Regex, v: &[E], p: &[usize], row: &bellframe::Row) -> R {
    let e = model::regex_matches(v, p);
    let got = regex.matches(row);
    ensure!(got == e, "regex {} (normalised from {}) matches {}: {}", regex, elems_text(v), show(p), got);
    let e_pat: Option<Vec<usize>> = e.then(|| {
        let mut places: Vec<usize> =
            v.iter().filter_map(|e| if let E::B(b) = e { p.iter().position(|x| x == b) } else { None }).collect();
        places.sort();
        places
    });
    let got = regex.match_pattern(row);
    ensure!(got == e_pat, "match_pattern of {} in {} gave {:?}, expected {:?}", regex, show(p), got, e_pat);
    Ok(())
}

fn all_rows(c: &mut Case, v: &[E]) -> R {
    c.log(|| format!("regex {:?} against all rows on up to 4 bells", elems_text(v)));
    let regex = build_regex(&mut c.rng, v)?;
    let mut sig = vec![];
    for n in 1..=4 {
        for (p, row) in rows_of(n) {
            check_match(&regex, v, p, row)?;
            sig.push(model::regex_matches(v, p) as usize);
            c.count("matches decided");
        }
    }
    // The distinct languages observed
    c.sig(hash_usizes(&sig));
    Ok(())
}

fn one_regex(c: &mut Case, n: usize) -> R {
    let v = elems(&mut c.rng, n + 1);
    let regex = build_regex(&mut c.rng, &v)?;
    c.log(|| format!("regex {:?} against rows of {} bells", elems_text(&v), n));
    for _ in 0..4 {
        let p = gens::perm(&mut c.rng, n);
        check_match(&regex, &v, &p, &rb(&p))?;
        c.count(if model::regex_matches(&v, &p) { "matches" } else { "non-matches" });
    }
    c.sig(hash_usizes(&v.iter().map(|e| if let E::B(b) = e { *b } else { 1000 + (*e == E::Any) as usize }).collect::<Vec<_>>()));
    Ok(())
}

/// A regex which matches a row (or nearly does)
fn regex_from_row(c: &mut Case, n: usize) -> R {
    let r = &mut c.rng.clone();
    let p = gens::perm(r, n);
    let mut v = vec![];
    let mut i = 0;
    while i < n {
        match r.below(5) {
            0 => {
                v.push(E::Any);
                i += 1;
            }
            1 => {
                v.push(E::Glob);
                i += r.below(n - i + 1).min(r.below(6));
            }
            _ => {
                v.push(E::B(p[i]));
                i += 1;
            }
        }
    }
    if r.chance(1, 4) {
        v.push(E::Glob);
    }
    if r.chance(1, 2) && !v.is_empty() {
        // Mutate it
        let i = r.below(v.len());
        match r.below(5) {
            0 => {
                v.remove(i);
            }
            1 => v.insert(i, E::Any),
            2 => v.insert(i, E::B(r.below(n))),
            3 => {
                let j = r.below(v.len());
                v.swap(i, j);
            }
            _ => v[i] = E::Glob,
        }
    }
    let regex = build_regex(r, &v)?;
    check_match(&regex, &v, &p, &rb(&p))?;
    for _ in 0..2 {
        let mut q = p.clone();
        let (i, j) = (c.rng.below(n), c.rng.below(n));
        q.swap(i, j);
        check_match(&regex, &v, &q, &rb(&q))?;
    }
    c.log(|| format!("regex {:?} (from {})", elems_text(&v), show(&p)));
    c.count(if model::regex_matches(&v, &p) { "matches" } else { "non-matches" });
    c.sig(hash_usizes(&v.iter().map(|e| if let E::B(b) = e { *b } else { 1000 + (*e == E::Any) as usize }).chain(p).collect::<Vec<_>>()));
    Ok(())
}

/* ===== C14: COUNTING ===== */

pub const C14: &[Probe] = &[
    exhaustive("counts-of-all-short-regexes", 3_906, 19_531, |c| {
        let v = short_regex(c.idx);
        c.log(|| format!("regex {:?}", elems_text(&v)));
        let regex = build_regex(&mut c.rng, &v)?;
        for n in 1..=5 {
            check_count(c, &regex, &v, n)?;
        }
        Ok(())
    }),
    random("counts-by-enumeration", 15_000, |c| {
        let n = c.rng.range(1, 6);
        let v = elems(&mut c.rng, n);
        c.log(|| format!("regex {:?} on {} bells", elems_text(&v), n));
        let regex = build_regex(&mut c.rng, &v)?;
        check_count(c, &regex, &v, n)
    }),
    random("big-counts", 60_000, |c| {
        let n = gens::stage(&mut c.rng, 140);
        let v = if c.rng.bool() { elems(&mut c.rng, n) } else { distinct_elems(&mut c.rng, n) };
        c.log(|| format!("regex {:?} on {} bells", elems_text(&v), n));
        let regex = build_regex(&mut c.rng, &v)?;
        check_count(c, &regex, &v, n)
    }),
    exhaustive("run-families-up-to-6", 48, 48, |c| {
        let (n, len) = (c.idx as usize / 8 + 1, c.idx as usize % 8);
        let rows: Vec<Vec<usize>> = rows_of(n).iter().map(|(p, _)| p.clone()).collect();
        run_families(c, n, len, &rows)
    }),
    random("run-families", 6_000, |c| {
        let n = gens::stage(&mut c.rng, 140);
        let len = if c.rng.chance(1, 8) { c.rng.below(n + 3) } else { c.rng.below(n.min(12) + 3) };
        let rows: Vec<Vec<usize>> = (0..4)
            .map(|_| {
                let mut p = gens::perm(&mut c.rng, n);
                // Plant a run
                let len = len.clamp(1, n);
                if c.rng.chance(3, 4) {
                    let start = c.rng.below(n - len + 1);
                    let mut run: Vec<usize> = (start..start + len).collect();
                    if c.rng.bool() {
                        run.reverse();
                    }
                    let mut rest: Vec<usize> = (0..n).filter(|b| !run.contains(b)).collect();
                    c.rng.shuffle(&mut rest);
                    let at = match c.rng.below(3) {
                        0 => 0,
                        1 => rest.len(),
                        _ => c.rng.below(rest.len() + 1),
                    };
                    p = rest[..at].iter().chain(&run).chain(&rest[at..]).copied().collect();
                }
                p
            })
            .collect();
        run_families(c, n, len, &rows)
    }),
    random("run-lengths", 30_000, |c| {
        let n = gens::stage(&mut c.rng, 300);
        let p = gens::perm(&mut c.rng, n);
        c.log(|| format!("runs of {}", show(&p)));
        let row = rb(&p);
        eq!(run_len(row.bell_iter()), model::run_len(&p), "run_len of {}", show(&p));
        let back: Vec<usize> = p.iter().rev().copied().collect();
        eq!(run_len(row.bell_iter().rev()), model::run_len(&back), "run_len off the back of {}", show(&p));
        c.count("run lengths");
        c.sig(hash_usizes(&p));
        Ok(())
    }),
];

/// Regexes which don't repeat bells
fn distinct_elems(r: &mut Rng, n: usize) -> Vec<E> {
    let p = gens::perm(r, n);
    let fixed = r.below(n + 1);
    let mut v: Vec<E> = p[..fixed].iter().map(|b| E::B(*b)).collect();
    let anys = if r.chance(1, 3) { n - fixed } else { r.below(n - fixed + 1) };
    for _ in 0..anys {
        let i = r.below(v.len() + 1);
        v.insert(i, E::Any);
    }
    for _ in 0..r.below(4) {
        let i = r.below(v.len() + 1);
        v.insert(i, E::Glob);
    }
    v
}

fn binomial(n: u128, k: u128) -> Option<u128> {
    let mut x = 1u128;
    for i in 0..k.min(n - k) {
        x = x.checked_mul(n - i)? / (i + 1);
    }
    Some(x)
}

/// The number of rows matched: all orders of the bells which aren't fixed, times all ways to share
/// out the places which aren't specified between the globs.  `None` if it's beyond a `u128`.
fn exact_count(v: &[E], n: usize) -> Option<u128> {
    let v = model::regex_normal(v);
    let fixed: Vec<usize> = v.iter().filter_map(|e| if let E::B(b) = e { Some(*b) } else { None }).collect();
    if fixed.iter().enumerate().any(|(i, b)| *b >= n || fixed[..i].contains(b)) {
        return Some(0);
    }
    let free = n - fixed.len();
    let anys = v.iter().filter(|e| **e == E::Any).count();
    let globs = v.iter().filter(|e| **e == E::Glob).count();
    if anys > free || (globs == 0 && anys != free) {
        return Some(0);
    }
    let mut x = if globs == 0 { 1 } else { binomial((free - anys + globs - 1) as u128, (globs - 1) as u128)? };
    for i in 1..=free as u128 {
        x = x.checked_mul(i)?;
    }
    Some(x)
}

fn check_count(c: &mut Case, regex: &Regex, v: &[E], n: usize) -> R {
    let e = exact_count(v, n);
    if n <= 6 {
        let brute = rows_of(n).iter().filter(|(p, _)| model::regex_matches(v, p)).count() as u128;
        assert_eq!(e, Some(brute), "the harness disagrees with itself about {:?} on {} bells", v, n);
        // And as the real code matches them
        let real = rows_of(n).iter().filter(|(_, r)| regex.matches(r)).count() as u128;
        eq!(real, brute, "rows of {} bells matched by {}", n, regex);
    }
    let got = regex.num_matching_rows(st(n));
    let globs = v.iter().filter(|e| **e == E::Glob).count();
    match (got, e) {
        (Some(g), Some(e)) if g as u128 == e => c.count("exact counts"),
        // Intermediate results are allowed to overflow, but only once the numbers are large
        // (20! fits 64 bits, and 12! fits 32)
        (None, e) if e.map_or(true, |e| e > usize::MAX as u128) || n + globs > (if usize::BITS < 64 { 12 } else { 20 }) => c.count("overflows"),
        _ => return Err(format!("{} matches {:?} rows of {} bells, expected {:?}", regex, got, n, e)),
    }
    c.sig(hash_usizes(&v.iter().map(|e| if let E::B(b) = e { *b } else { 1000 + (*e == E::Any) as usize }).collect::<Vec<_>>()) ^ mix(n as u64));
    Ok(())
}

fn run_families(c: &mut Case, n: usize, len: usize, rows: &[Vec<usize>]) -> R {
    c.log(|| format!("runs of {} on {} bells, rows {}", len, n, rows.iter().take(4).map(|p| show(p)).collect::<Vec<_>>().join(" ")));
    let s = st(n);
    let front = Regex::runs_front(s, len);
    let back = Regex::runs_back(s, len);
    let both = Regex::runs_front_or_back(s, len);
    let all = Regex::all_runs(s, len);
    for (what, fam) in [("runs_front", &front), ("runs_back", &back), ("runs_front_or_back", &both), ("all_runs", &all)] {
        if len > n {
            ensure!(fam.is_empty(), "{} of length {} on {} bells gave {:?}", what, len, n, fam);
        }
        for x in fam {
            let mut y = x.clone();
            y.normalise();
            ensure!(y == *x, "{} of length {} on {} bells contains {:?}, which isn't normalised", what, len, n, x);
        }
    }
    ensure!(Regex::runs(s, len, true) == all, "runs(internal) isn't all_runs");
    ensure!(Regex::runs(s, len, false) == both, "runs(external) isn't runs_front_or_back");
    if len > n {
        c.sig((n * 1000 + len) as u64);
        return Ok(());
    }
    for p in rows {
        let row = rb(p);
        let is_run = |i: usize| len == 0 || model::run_len(&p[i..i + len]) == len;
        let starts: Vec<usize> = (0..=n - len).filter(|&i| is_run(i)).collect();
        let e_front = starts.contains(&0) as usize;
        let e_back = starts.contains(&(n - len)) as usize;
        for (what, fam, e) in [
            ("runs_front", &front, e_front),
            ("runs_back", &back, e_back),
            ("runs_front_or_back", &both, e_front + e_back),
            ("all_runs", &all, starts.len()),
        ] {
            let got = fam.iter().filter(|x| x.matches(&row)).count();
            // (runs of fewer than two bells are the same in both directions)
            let ok = if len >= 2 { got == e } else { (got > 0) == (e > 0) };
            ensure!(ok, "{} {} of length {} match {}, expected {}", got, what, len, show(p), e);
            c.count("run families decided");
            if got > 0 {
                c.count("runs found");
            }
        }
        c.sig(hash_usizes(p) ^ len as u64);
    }
    Ok(())
}
