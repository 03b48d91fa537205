//! C10, C11: sequences of rows, and blocks of annotated rows

use std::{
    hash::{DefaultHasher, Hash, Hasher},
    hint::black_box,
    ops::Bound,
};

use bellframe::{block::AnnotRow, AnnotBlock, Block, Row, RowBuf, SameStageVec};

use crate::{
    ctx::{guard, random, Case, Probe, R},
    ensure, eq,
    gens::{self, bell, ints, rb, show, ssv, ssv_rows, st},
    model,
    rng::{hash_str, hash_usizes, mix, Rng},
};

type Range = (Bound<usize>, Bound<usize>);

/// A range which isn't one of `0..len`: it ends after the end, or before it starts
fn bad_range(r: &mut Rng, len: usize) -> (Range, usize, usize) {
    let (a, b);
    match r.below(5) {
        0 if len > 0 => {
            // Backwards, but within bounds
            a = r.range(1, len);
            b = r.below(a);
        }
        1 => {
            a = r.below(len + 1);
            // (`..=usize::MAX` is a bad range, too)
            return if r.bool() { ((Bound::Included(a), Bound::Included(usize::MAX)), a, usize::MAX) } else { ((Bound::Excluded(usize::MAX), Bound::Unbounded), usize::MAX, len) };
        }
        2 => {
            a = r.below(len + 1);
            b = *r.pick(HUGE);
        }
        3 => {
            b = len + r.range(1, 3);
            a = b - r.below(2);
        }
        _ => {
            a = r.below(len + 1);
            b = len + r.range(1, 3);
        }
    }
    let start = match r.below(3) {
        0 if a == 0 => Bound::Unbounded,
        1 if a > 0 => Bound::Excluded(a - 1),
        _ => Bound::Included(a),
    };
    let end = match r.below(3) {
        1 if b > 0 => Bound::Included(b - 1),
        _ => Bound::Excluded(b),
    };
    ((start, end), a, b)
}

/// A range (in any form) and the indices it means.
fn range(r: &mut Rng, len: usize, in_bounds: bool) -> (Range, usize, usize) {
    let (mut a, mut b) = (r.below(len + 1), r.below(len + 1));
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    if !in_bounds {
        return bad_range(r, len);
    }
    let start = match r.below(3) {
        0 if a == 0 => Bound::Unbounded,
        1 if a > 0 => Bound::Excluded(a - 1),
        _ => Bound::Included(a),
    };
    let end = match r.below(3) {
        0 if b == len => Bound::Unbounded,
        1 if b > 0 => Bound::Included(b - 1),
        _ => Bound::Excluded(b),
    };
    ((start, end), a, b)
}

const HUGE: &[usize] = &[usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX / 8, usize::MAX / 8 + 1, usize::MAX / 8 + 2, usize::MAX / 4 + 1, usize::MAX / 6 + 1];

fn is_row(got: Option<&Row>, e: Option<&Vec<usize>>, what: &str) -> R {
    let got = got.map(ints);
    ensure!(got.as_ref() == e, "{}: got {:?}, expected {:?}", what, got, e);
    Ok(())
}

/// The number of rows of a long sequence (beyond what a byte can count, or a buffer hold)
fn long(r: &mut Rng, n: usize) -> usize {
    let max = (20_000 / n).max(20);
    match r.below(3) {
        0 => r.range(20, 200).min(max),
        1 => r.range(250, 270).min(max),
        _ => r.range(20, 1_200.min(max)),
    }
}

/* ===== C10 ===== */

pub const C10: &[Probe] = &[random("histories", 15_000, vec_history), random("iterators", 40_000, |c| {
    let r = &mut c.rng.clone();
    let n = gens::stage(r, 300);
    let len = if r.chance(1, 50) { long(r, n) } else { r.below(9) };
    let rows: Vec<Vec<usize>> = (0..len).map(|_| gens::perm(r, n)).collect();
    let v = ssv(n, &rows);
    c.log(|| format!("{} rows of {} bells", len, n));
    check_iter(c, || v.iter(), &rows, "iter")?;
    c.sig(hash_usizes(&rows.concat()) ^ c.idx);
    Ok(())
})];

fn skip(r: &mut Rng, left: usize) -> usize {
    match r.below(12) {
        0 => *r.pick(HUGE),
        1 => r.below(left + 2),
        _ => r.below(3),
    }
}

/// Consume an iterator over rows from both ends and in various ways
fn check_iter<'a, I: DoubleEndedIterator<Item = &'a Row> + ExactSizeIterator + Clone>(
    c: &mut Case,
    make: impl Fn() -> I,
    rows: &[Vec<usize>],
    what: &str,
) -> R {
    let r = &mut c.rng.clone();
    let mut it = make();
    let (mut a, mut b) = (0, rows.len());
    for step in 0..rows.len() * 2 + 3 {
        eq!(it.len(), b - a, "{}: len after {} steps", what, step);
        eq!(it.size_hint(), (b - a, Some(b - a)), "{}: size_hint after {} steps", what, step);
        match r.below(8) {
            0..=2 => {
                is_row(it.next(), rows[a..b].first(), "next")?;
                a = (a + 1).min(b);
            }
            3..=4 => {
                is_row(it.next_back(), rows[a..b].last(), "next_back")?;
                b = b.saturating_sub(1).max(a);
            }
            5 => {
                let k = skip(r, b - a);
                is_row(it.nth(k), rows[a..b].get(k), "nth")?;
                a = a.saturating_add(k).saturating_add(1).min(b);
            }
            6 => {
                let k = skip(r, b - a);
                is_row(it.nth_back(k), rows[a..b].iter().rev().nth(k), "nth_back")?;
                b = if b - a > k { b - k - 1 } else { a };
            }
            _ => {
                let copy = it.clone();
                match r.below(5) {
                    0 => eq!(copy.count(), b - a, "{}: count", what),
                    1 => is_row(copy.last(), rows[a..b].last(), "last")?,
                    2 => eq!(copy.rev().map(ints).collect::<Vec<_>>(), rows[a..b].iter().rev().cloned().collect::<Vec<_>>(), "{}: rev", what),
                    3 => eq!(copy.step_by(2).map(ints).collect::<Vec<_>>(), rows[a..b].iter().step_by(2).cloned().collect::<Vec<_>>(), "{}: step_by", what),
                    _ => eq!(copy.map(ints).collect::<Vec<_>>(), rows[a..b].to_vec(), "{}: clone", what),
                }
            }
        }
        c.count("iterator steps");
    }
    Ok(())
}

fn check_vec(c: &mut Case, v: &mut SameStageVec, n: usize, rows: &[Vec<usize>], what: &str) -> R {
    let r = &mut c.rng.clone();
    eq!(ssv_rows(v), rows, "rows after {}", what);
    eq!(v.len(), rows.len(), "len after {}", what);
    eq!(v.is_empty(), rows.is_empty(), "is_empty after {}", what);
    eq!(v.stage().num_bells(), n, "stage after {}", what);
    let i = if r.chance(1, 3) { *r.pick(HUGE) } else { r.below(rows.len() + 2) };
    is_row(v.get(i), rows.get(i), &format!("get({}) after {}", i, what))?;
    is_row(v.get_mut(i).map(|r| &*r), rows.get(i), &format!("get_mut({}) after {}", i, what))?;
    is_row(v.first(), rows.first(), &format!("first after {}", what))?;
    is_row(v.last(), rows.last(), &format!("last after {}", what))?;
    is_row(v.first_mut().map(|r| &*r), rows.first(), &format!("first_mut after {}", what))?;
    is_row(v.last_mut().map(|r| &*r), rows.last(), &format!("last_mut after {}", what))?;
    match (guard(|| ints(&v[i])), rows.get(i)) {
        (Ok(got), Some(e)) => eq!(got, *e, "v[{}] after {}", i, what),
        (Err(_), None) => {}
        (got, e) => return Err(format!("v[{}] after {} gave {:?}, expected {:?}", i, what, got, e)),
    }
    let b = if r.chance(1, 4) { *r.pick(&[n, n + 1, usize::MAX - 1, gens::two_to(32)]) } else { r.below(n) };
    let e = (b < n).then(|| rows.iter().map(|p| p.iter().position(|x| *x == b).unwrap()).collect::<Vec<_>>());
    eq!(v.path_of(bell(b)), e, "path of bell {} after {}", b, what);
    let copy: Vec<Vec<usize>> = (&*v).into_iter().map(ints).collect();
    eq!(copy, rows, "by IntoIterator after {}", what);
    Ok(())
}

struct Model {
    n: usize,
    rows: Vec<Vec<usize>>,
}

fn vec_history(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let n = gens::stage(r, 140);
    let other_n = if n > 1 && r.bool() { n - 1 } else { n + 1 };
    let mut v = match r.below(3) {
        0 => SameStageVec::new(st(n)),
        1 => SameStageVec::with_capacity(st(n), r.below(20)),
        _ => ssv(n, &[]),
    };
    let mut m = Model { n, rows: vec![] };
    if r.bool() {
        let p = gens::perm(r, n);
        v = SameStageVec::from_row_buf(rb(&p));
        m.rows.push(p);
    }
    if r.chance(1, 40) {
        // A long sequence
        m.rows = (0..long(r, n)).map(|_| gens::perm(r, n)).collect();
        v = ssv(n, &m.rows);
        c.count("long sequences");
    }
    let mut log = vec![];
    for _ in 0..r.range(1, 14) {
        let wrong = r.chance(1, 6);
        let n2 = if wrong { other_n } else { n };
        let p = gens::perm(r, n2);
        let other_rows: Vec<Vec<usize>> = (0..r.below(5)).map(|_| gens::perm(r, n2)).collect();
        let other = ssv(n2, &other_rows);
        let op = r.below(14);
        let what;
        let before = m.rows.clone();
        let res: Result<(), String> = match op {
            0 | 1 => {
                what = format!("push {}", show(&p));
                m.rows.push(p.clone());
                v.push(&rb(&p)).map_err(|e| e.to_string())
            }
            2 => {
                what = "pop".to_owned();
                let got = v.pop();
                let e = m.rows.pop();
                is_row(got.as_deref(), e.as_ref(), "pop")?;
                c.count("operations");
                check_vec(c, &mut v, n, &m.rows, &what)?;
                continue;
            }
            3 => {
                what = format!("extend by {} rows", other_rows.len());
                let mut list = other_rows.clone();
                if wrong {
                    // Some good rows before (and after) the bad one
                    list = (0..r.below(3)).map(|_| gens::perm(r, n)).collect();
                    list.push(gens::perm(r, other_n));
                    list.extend((0..r.below(2)).map(|_| gens::perm(r, n)));
                }
                let bufs: Vec<RowBuf> = list.iter().map(|p| rb(p)).collect();
                if r.chance(1, 4) {
                    // The iterator panics part of the way through.  Whatever of it was added, only whole rows were
                    let at = r.below(list.len() + 1);
                    let in_as_ref = r.bool();
                    let res = guard(|| {
                        v.extend(bufs.iter().enumerate().map(|(i, b)| {
                            assert!(i != at || in_as_ref, "the iterator panics");
                            PanickingRow(b, i == at)
                        }))
                        .is_ok()
                    });
                    let bad = list.iter().position(|p| p.len() != n).unwrap_or(list.len());
                    let whole = list.len() == at;
                    let got = ssv_rows(&v);
                    let added = got.len().checked_sub(before.len());
                    ensure!(
                        got.starts_with(&before) && added.map_or(false, |k| k <= at.min(bad) && got[before.len()..] == list[..k]),
                        "extending {:?} by {:?}, with a panic at {}, gave {:?}",
                        before,
                        list,
                        at,
                        got
                    );
                    match res {
                        Ok(true) => ensure!(whole && bad == list.len() && added == Some(list.len()), "{} succeeded, although the iterator panics at {}", what, at),
                        Ok(false) => ensure!(bad < list.len() && added == Some(0), "{} failed and left {:?}", what, got),
                        Err(_) => {
                            ensure!(!whole, "{} panicked although its iterator doesn't", what);
                            c.count("iterators which panicked");
                        }
                    }
                    m.rows = got;
                    check_vec(c, &mut v, n, &m.rows, &what)?;
                    log.push(what);
                    continue;
                }
                m.rows.extend(list.iter().cloned());
                match r.below(3) {
                    0 => v.extend(&bufs),
                    1 => v.extend(bufs.iter().filter(|b| !b.slice().is_empty())),
                    _ => v.extend(gens::vague(r, bufs.into_iter())),
                }
                .map_err(|e| e.to_string())
            }
            4 => {
                what = format!("extend_from_buf by {} rows", other_rows.len());
                m.rows.extend(other_rows.iter().cloned());
                v.extend_from_buf(&other).map_err(|e| e.to_string())
            }
            5 | 6 => {
                // Which of the arguments has the wrong stage?
                let t_n = if wrong && r.bool() { n } else { n2 };
                let t_n = if wrong && r.chance(1, 4) { other_n } else { t_n };
                let o_n = if wrong && t_n == n { other_n } else if wrong && r.bool() { n } else { n2 };
                let t = gens::perm(r, t_n);
                let other_rows: Vec<Vec<usize>> = (0..r.below(5)).map(|_| gens::perm(r, o_n)).collect();
                let other = ssv(o_n, &other_rows);
                let (rg, a, b) = range(r, other_rows.len(), true);
                if op == 5 {
                    what = format!("extend_transposed by {} * {} rows", show(&t), other_rows.len());
                    if !wrong {
                        m.rows.extend(other_rows.iter().map(|x| model::mul(&t, x)));
                    }
                    v.extend_transposed(&rb(&t), &other).map_err(|e| e.to_string())
                } else {
                    what = format!("extend_range_transposed by {} * [{}..{}] of {} rows", show(&t), a, b, other_rows.len());
                    if !wrong {
                        m.rows.extend(other_rows[a..b].iter().map(|x| model::mul(&t, x)));
                    }
                    v.extend_range_transposed(&rb(&t), &other, rg).map_err(|e| e.to_string())
                }
            }
            7 => {
                let (rg, a, b) = range(r, m.rows.len(), true);
                what = format!("extend_transposed_from_within {}..{} by {}", a, b, show(&p));
                if !wrong {
                    m.rows.extend(before[a..b].iter().map(|x| model::mul(&p, x)));
                }
                v.extend_transposed_from_within(rg, &rb(&p)).map_err(|e| e.to_string())
            }
            8 => {
                what = format!("pre_multiply by {}", show(&p));
                if !wrong {
                    m.rows = m.rows.iter().map(|x| model::mul(&p, x)).collect();
                }
                if r.bool() {
                    #[allow(deprecated)]
                    v.permute(&rb(&p)).map_err(|e| e.to_string())
                } else {
                    v.pre_multiply(&rb(&p)).map_err(|e| e.to_string())
                }
            }
            9 => {
                what = format!("pre_multiplied by {}", show(&p));
                let got = v.pre_multiplied(&rb(&p));
                check_vec(c, &mut v, n, &before, &format!("{} (the original)", what))?;
                match got {
                    Ok(x) => {
                        if !wrong {
                            m.rows = m.rows.iter().map(|x| model::mul(&p, x)).collect();
                        }
                        v = x;
                        Ok(())
                    }
                    Err(e) => Err(e.to_string()),
                }
            }
            10 => {
                let i = if r.chance(1, 4) { *r.pick(HUGE) } else { r.below(m.rows.len() + 2) };
                what = format!("split at {}", i);
                let got = v.clone().split(i);
                eq!(got.is_some(), i <= m.rows.len(), "whether {} rows can be split at {}", m.rows.len(), i);
                if let Some((mut a, mut b)) = got {
                    check_vec(c, &mut a, n, &m.rows[..i], "split (left)")?;
                    check_vec(c, &mut b, n, &m.rows[i..], "split (right)")?;
                    // Together they're the original
                    let mut whole = a.clone();
                    whole.extend_from_buf(&b).map_err(|e| e.to_string())?;
                    ensure!(whole == v, "the halves of {:?} split at {} make {:?}", v, i, whole);
                    if r.bool() {
                        v = a;
                        m.rows.truncate(i);
                    } else {
                        v = b;
                        m.rows.drain(..i);
                    }
                }
                c.count("operations");
                log.push(what);
                continue;
            }
            11 if !m.rows.is_empty() => {
                // Write through a reference
                let i = r.below(m.rows.len());
                let (a, b) = (r.below(n), r.below(n));
                what = format!("swap {} and {} of row {}", a, b, i);
                let len = m.rows.len();
                let (row, i) = match r.below(3) {
                    0 => (v.first_mut(), 0),
                    1 => (v.last_mut(), len - 1),
                    _ => (v.get_mut(i), i),
                };
                row.ok_or("no such row")?.swap(a, b);
                m.rows[i].swap(a, b);
                check_vec(c, &mut v, n, &m.rows, &what)?;
                c.count("operations");
                log.push(what);
                continue;
            }
            12 if !wrong => {
                // Out-of-bounds and backwards ranges panic
                let (rg, _, _) = range(r, m.rows.len(), false);
                what = format!("bad range {:?} of {} rows", rg, m.rows.len());
                let mut copy = v.clone();
                let t = rb(&p);
                let from_within = r.bool();
                let res = guard(|| {
                    if from_within {
                        copy.extend_transposed_from_within(rg, &t).is_ok()
                    } else {
                        copy.extend_range_transposed(&t, &v, rg).is_ok()
                    }
                });
                ensure!(res.is_err(), "{} ({}) gave {:?} and {:?}", what, if from_within { "from within" } else { "of another" }, res, copy);
                check_vec(c, &mut copy, n, &m.rows, &what)?;
                check_vec(c, &mut v, n, &m.rows, &what)?;
                c.count("bad ranges");
                log.push(what);
                continue;
            }
            _ => {
                what = "clone".to_owned();
                let mut copy = v.clone();
                ensure!(copy == v, "a clone of {:?} is {:?}", v, copy);
                check_vec(c, &mut copy, n, &m.rows, "clone")?;
                v = copy;
                c.count("operations");
                log.push(what);
                continue;
            }
        };
        match res {
            Ok(()) => ensure!(!wrong, "{} succeeded although the stages are different", what),
            Err(e) => {
                ensure!(wrong, "{} failed with {:?}", what, e);
                for s in [n, other_n] {
                    ensure!(e.contains(&model::stage_display(s)), "the message {:?} doesn't name {}", e, model::stage_display(s));
                }
                m.rows = before;
                c.count("operations which failed");
            }
        }
        check_vec(c, &mut v, n, &m.rows, &what)?;
        c.count("operations");
        log.push(what);
    }
    check_iter(c, || v.iter(), &m.rows, "iter")?;
    c.sig(hash_usizes(&m.rows.concat()) ^ hash_str(&log.join(";")));
    c.log(|| format!("{} bells: {}", m.n, log.join("; ")));
    Ok(())
}

/* ===== C11 ===== */

pub const C11: &[Probe] = &[
    random("histories", 12_000, block_history),
    random("views", 20_000, |c| {
        let r = &mut c.rng.clone();
        let n = gens::stage(r, 140);
        let m = any_block(r, n);
        c.log(|| format!("a block of {} rows of {} bells", m.annots.len(), n));
        let b = build(&m);
        check_block(c, &b, &m, "with_annots_from_indices")?;
        check_iter(c, || b.rows(), &m.rows[..m.rows.len() - 1], "rows")?;
        check_iter(c, || b.all_rows(), &m.rows, "all_rows")?;
        c.sig(hash_usizes(&m.rows.concat()));
        Ok(())
    }),
    random("repetition", 15_000, repetition),
    random("out-of-range", 5_000, out_of_range),
    random("annotations-which-panic", 20_000, panicking_annots),
];

#[derive(Clone, Debug)]
struct BM {
    n: usize,
    rows: Vec<Vec<usize>>,
    annots: Vec<String>,
}

fn any_block(r: &mut Rng, n: usize) -> BM {
    let len = if r.chance(1, 6) {
        0
    } else if r.chance(1, 60) {
        long(r, n)
    } else {
        r.below(9)
    };
    let mut rows = vec![if r.chance(1, 3) { model::id(n) } else { gens::perm(r, n) }];
    for _ in 0..len {
        let p = if r.bool() { model::pn_perm(&gens::full_places(r, n), n) } else { gens::perm(r, n) };
        rows.push(model::mul(rows.last().unwrap(), &p));
    }
    let annots = (0..len).map(|_| format!("a{}", r.below(1000))).collect();
    BM { n, rows, annots }
}

fn build(m: &BM) -> AnnotBlock<String> {
    AnnotBlock::with_annots_from_indices(ssv(m.n, &m.rows), |i| m.annots[i].clone()).unwrap()
}

fn eff_stage(rows: &[Vec<usize>]) -> usize {
    rows.iter().map(|p| p.iter().enumerate().rev().find(|(i, x)| i != *x).map_or(1, |(i, _)| i + 1)).max().unwrap()
}

fn check_block(c: &mut Case, b: &AnnotBlock<String>, m: &BM, what: &str) -> R {
    let r = &mut c.rng.clone();
    let n = m.n;
    let len = m.annots.len();
    eq!(ssv_rows(b.row_vec()), m.rows, "rows after {}", what);
    eq!(b.annots().cloned().collect::<Vec<_>>(), m.annots, "annotations after {}", what);
    eq!(b.len(), len, "len after {}", what);
    eq!(b.is_empty(), len == 0, "is_empty after {}", what);
    eq!(b.stage().num_bells(), n, "stage after {}", what);
    eq!(b.effective_stage().num_bells(), eff_stage(&m.rows), "effective stage after {}", what);
    eq!(b.all_rows().map(ints).collect::<Vec<_>>(), m.rows, "all_rows after {}", what);
    eq!(b.rows().map(ints).collect::<Vec<_>>(), m.rows[..len].to_vec(), "rows after {}", what);
    eq!(b.rows().len(), len, "rows().len() after {}", what);
    let pairs: Vec<(Vec<usize>, String)> = b.annot_rows().map(|a| (ints(a.row()), a.annot().clone())).collect();
    let e: Vec<(Vec<usize>, String)> = m.rows.iter().cloned().zip(m.annots.iter().cloned()).collect();
    eq!(pairs, e, "annot_rows after {}", what);
    is_row(Some(b.first_row()), m.rows.first(), "first_row")?;
    is_row(Some(b.leftover_row()), m.rows.last(), "leftover_row")?;
    for (a, (row, annot)) in b.annot_rows().zip(&e) {
        let copy = a.clone();
        ensure!(copy == a && copy == AnnotRow::new(&rb(row), annot), "a copy of the annotated row {:?} isn't equal to it, but {:?}", a, copy);
        eq!(hash_of(&copy), hash_of(&a), "hashes of an annotated row and its copy");
    }
    if r.chance(1, 4) {
        black_box(format!("{:?}", b));
    }
    let first = b.first_annot_row().map(|a| (ints(a.row()), a.annot().clone()));
    eq!(first.as_ref(), e.first(), "first_annot_row after {}", what);
    for i in [r.below(len + 3), len, *r.pick(HUGE)] {
        is_row(b.get_row(i), m.rows.get(i), &format!("get_row({}) after {}", i, what))?;
        eq!(b.get_annot(i), m.annots.get(i), "get_annot({}) after {}", i, what);
        let got = b.get_annot_row(i).map(|a| (ints(a.row()), a.annot().clone()));
        eq!(got.as_ref(), e.get(i), "get_annot_row({}) after {}", i, what);
    }
    let x = if r.chance(1, 5) { n + r.below(3) } else { r.below(n) };
    let path = (x < n).then(|| m.rows.iter().map(|p| p.iter().position(|y| *y == x).unwrap()).collect::<Vec<_>>());
    eq!(b.full_path_of(bell(x)), path, "full path of bell {} after {}", x, what);
    let split = path.map(|mut p| {
        let last = p.pop().unwrap();
        (p, last)
    });
    eq!(b.path_of(bell(x)), split, "path of bell {} after {}", x, what);
    Ok(())
}

/// The rows of `other[a..=b]`, multiplied so that they start from `from`
fn transposed(other: &[Vec<usize>], from: &[usize]) -> Vec<Vec<usize>> {
    let t = model::mul(from, &model::inv(&other[0]));
    other.iter().map(|p| model::mul(&t, p)).collect()
}

fn block_history(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let n = gens::stage(r, 140);
    let other_n = if n > 1 && r.bool() { n - 1 } else { n + 1 };
    let (mut b, mut m) = match r.below(4) {
        0 => (AnnotBlock::empty(st(n)), BM { n, rows: vec![model::id(n)], annots: vec![] }),
        1 => {
            let mut m = any_block(r, n);
            m.annots = vec![String::new(); m.annots.len()];
            (AnnotBlock::with_default_annots(ssv(n, &m.rows)), m)
        }
        2 if n <= 33 => {
            let mut m = any_block(r, n);
            m.annots = vec![String::new(); m.annots.len()];
            let text: Vec<String> = m.rows.iter().map(|p| show(p)).collect();
            (AnnotBlock::parse(&text.join("\n")).map_err(|e| e.to_string())?, m)
        }
        _ => {
            let m = any_block(r, n);
            (build(&m), m)
        }
    };
    let mut log = vec![];
    for _ in 0..r.range(1, 10) {
        let wrong = r.chance(1, 7);
        let what;
        let len = m.annots.len();
        match r.below(10) {
            0 => {
                let o = any_block(r, if wrong { other_n } else { n });
                what = format!("extend by {:?}", o);
                let res = b.extend(&build(&o));
                eq!(res.is_ok(), !wrong, "whether {} succeeded", what);
                if !wrong {
                    let t = transposed(&o.rows, m.rows.last().unwrap());
                    m.rows.extend(t[1..].iter().cloned());
                    m.annots.extend(o.annots);
                }
            }
            1 | 2 => {
                let o = any_block(r, if wrong { other_n } else { n });
                let (rg, x, y) = range(r, o.annots.len(), true);
                what = format!("extend by {}..{} of {:?}", x, y, o);
                let res = b.extend_range(&build(&o), rg);
                eq!(res.is_ok(), !wrong, "whether {} succeeded", what);
                if !wrong {
                    let t = transposed(&o.rows[x..=y], m.rows.last().unwrap());
                    m.rows.extend(t[1..].iter().cloned());
                    m.annots.extend(o.annots[x..y].iter().cloned());
                }
            }
            3 if len < 400 => {
                let (rg, x, y) = range(r, len, true);
                what = format!("extend_from_within {}..{}", x, y);
                b.extend_from_within(rg);
                let t = transposed(&m.rows[x..=y], m.rows.last().unwrap());
                m.rows.extend(t[1..].iter().cloned());
                let extra = m.annots[x..y].to_vec();
                m.annots.extend(extra);
            }
            4 => {
                let p = gens::perm(r, if wrong { other_n } else { n });
                what = format!("pre_multiply by {}", show(&p));
                let res = if r.bool() {
                    b.pre_multiply(&rb(&p))
                } else {
                    #[allow(deprecated)]
                    b.permute(&rb(&p))
                };
                eq!(res.is_ok(), !wrong, "whether {} succeeded", what);
                if !wrong {
                    m.rows = m.rows.iter().map(|x| model::mul(&p, x)).collect();
                }
            }
            5 => {
                let i = if r.chance(1, 5) { *r.pick(HUGE) } else { r.below(len + 2) };
                what = format!("split at {}", i);
                let got = b.clone().split(i);
                eq!(got.is_some(), i <= len, "whether a block of length {} can be split at {}", len, i);
                if let Some((x, y)) = got {
                    let mx = BM { n, rows: m.rows[..=i].to_vec(), annots: m.annots[..i].to_vec() };
                    let my = BM { n, rows: m.rows[i..].to_vec(), annots: m.annots[i..].to_vec() };
                    check_block(c, &x, &mx, "split (first)")?;
                    check_block(c, &y, &my, "split (second)")?;
                    let mut whole = x.clone();
                    whole.extend(&y).map_err(|e| e.to_string())?;
                    ensure!(whole == b, "{:?} split at {} and put together is {:?}", b, i, whole);
                    (b, m) = if r.bool() { (x, mx) } else { (y, my) };
                }
            }
            6 => {
                let seen = std::cell::RefCell::new(vec![]);
                what = "map".to_owned();
                match r.below(3) {
                    0 => {
                        b = b.map_annots(|a| format!("<{}>", a));
                        m.annots.iter_mut().for_each(|a| *a = format!("<{}>", a));
                    }
                    1 => {
                        b = b.map_annots_with_index(|i, a| {
                            seen.borrow_mut().push(i);
                            format!("{}:{}", i, a)
                        });
                        eq!(*seen.borrow(), (0..len).collect::<Vec<_>>(), "indices mapped");
                        m.annots.iter_mut().enumerate().for_each(|(i, a)| *a = format!("{}:{}", i, a));
                    }
                    _ => {
                        let copy = b.clone_map_annots_with_index(|i, a| {
                            seen.borrow_mut().push(i);
                            format!("{}:{}", i, a)
                        });
                        check_block(c, &b, &m, "clone_map_annots_with_index (the original)")?;
                        b = copy;
                        eq!(*seen.borrow(), (0..len).collect::<Vec<_>>(), "indices mapped");
                        m.annots.iter_mut().enumerate().for_each(|(i, a)| *a = format!("{}:{}", i, a));
                    }
                }
            }
            7 => {
                let i = r.below(len + 1);
                what = format!("set annotation {}", i);
                let got = b.get_annot_mut(i);
                eq!(got.is_some(), i < len, "whether annotation {} of {} exists", i, len);
                if let Some(a) = got {
                    *a = "new".to_owned();
                    m.annots[i] = "new".to_owned();
                }
            }
            8 => {
                what = "rows only".to_owned();
                let rows = b.clone().into_row_vec();
                eq!(ssv_rows(&rows), m.rows, "into_row_vec");
                let plain: Block = AnnotBlock::with_default_annots(rows);
                eq!(plain.len(), len, "length of a block without annotations");
                ensure!(AnnotBlock::<u8>::with_annots_from_indices(SameStageVec::new(st(n)), |_| 0).is_none(), "a block was made of no rows");
            }
            _ => {
                what = "clone".to_owned();
                let copy = b.clone();
                ensure!(copy == b, "a clone of {:?} is {:?}", b, copy);
                b = copy;
            }
        }
        check_block(c, &b, &m, &what)?;
        c.count(if wrong { "operations (perhaps of the wrong stage)" } else { "operations" });
        log.push(what);
        if m.annots.len() > 1_500 {
            break;
        }
    }
    c.sig(hash_usizes(&m.rows.concat()) ^ hash_str(&m.annots.join(";")));
    c.log(|| log.join("; "));
    Ok(())
}

fn repetition(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let n = gens::stage(r, 33);
    let m = any_block(r, n);
    let len = m.annots.len();
    let start = gens::perm(r, n);
    let b = build(&m);
    c.log(|| format!("{:?} repeated from {}", m, show(&start)));
    let wrong = gens::perm(r, n + 1);
    ensure!(b.repeat_iter(rb(&wrong)).is_err(), "a block of {} bells can be repeated from {} bells", n, n + 1);
    let mut it = b.repeat_iter(rb(&start)).map_err(|e| e.to_string())?;
    if len == 0 {
        for _ in 0..3 {
            ensure!(it.next().is_none(), "an empty block can be repeated");
        }
        let mut out = RowBuf::rounds(st(n));
        ensure!(it.next_into(&mut out).is_none(), "an empty block can be repeated");
        c.count("empty blocks");
        return Ok(());
    }
    // After each repetition, the rows are multiplied by that block's leftover row
    let mut heads = vec![start];
    let mut expect = |pos: usize| {
        while heads.len() <= pos / len {
            heads.push(model::mul(heads.last().unwrap(), m.rows.last().unwrap()));
        }
        (model::mul(&heads[pos / len], &m.rows[pos % len]), pos % len)
    };
    let mut out = RowBuf::rounds(st(n));
    let mut pos = 0; // how many rows were taken so far
    let mut other: Option<(bellframe::block::RepeatIter<String>, usize)> = None;
    let end = if r.chance(1, 6) { len * 3 + 300 } else { len * 4 };
    while pos < end {
        let (row, idx, annot) = match r.below(16) {
            0..=6 => it.next().ok_or("a repeated block finished")?,
            7..=12 => {
                if r.chance(1, 8) {
                    out = rb(&gens::perm(r, n)); // what's in the row before doesn't matter
                }
                let (idx, annot) = it.next_into(&mut out).ok_or("a repeated block finished")?;
                (out.clone(), idx, annot)
            }
            13 => {
                let k = if r.bool() { r.below(4) } else { r.below(len * 2 + 2) };
                pos += k;
                c.count("rows skipped by nth");
                it.nth(k).ok_or("a repeated block finished")?
            }
            14 => {
                let k = if r.bool() { r.below(4) } else { r.below(len * 2 + 2) };
                pos += k;
                if r.bool() {
                    it.by_ref().skip(k).next()
                } else {
                    eq!(it.by_ref().take(k).count(), k, "how many rows can be taken");
                    it.next()
                }
                .ok_or("a repeated block finished")?
            }
            _ => {
                // Every few rows, through a copy
                let k = 1 + r.below(len + 2);
                for (i, (row, idx, annot)) in it.clone().step_by(k).take(3).enumerate() {
                    let (e, ei) = expect(pos + i * k);
                    eq!(ints(&row), e, "row {} by steps of {}", i, k);
                    eq!((idx, annot), (ei, &m.annots[ei]), "index and annotation of row {} by steps of {}", i, k);
                }
                let (lower, upper) = it.size_hint();
                ensure!(upper.is_none(), "an endless iterator has size_hint {:?}", (lower, upper));
                it.next().ok_or("a repeated block finished")?
            }
        };
        let (e, ei) = expect(pos);
        eq!(ints(&row), e, "row {}, which is row {} of repetition {}", pos, ei, pos / len);
        eq!(idx, ei, "index of row {}, which is row {} of repetition {}", pos, ei, pos / len);
        eq!(annot, &m.annots[ei], "annotation of row {}, which is row {} of repetition {}", pos, ei, pos / len);
        pos += 1;
        // A copy made earlier isn't changed by what happens to this one
        if r.chance(1, 8) {
            other = Some((it.clone(), pos));
        } else if let Some((o, opos)) = &mut other {
            let (row, idx, annot) = o.next().ok_or("a repeated block finished")?;
            let (e, ei) = expect(*opos);
            eq!(ints(&row), e, "row {} of a copy", opos);
            eq!((idx, annot), (ei, &m.annots[ei]), "index and annotation of row {} of a copy", opos);
            *opos += 1;
        }
        c.count("rows repeated");
    }
    // A clone carries on from where it was
    let mut copy = it.clone();
    for _ in 0..len + 1 {
        let (a, b) = (it.next().unwrap(), copy.next().unwrap());
        eq!(ints(&a.0), ints(&b.0), "rows of a cloned iterator");
        eq!((a.1, a.2), (b.1, b.2), "annotations of a cloned iterator");
    }
    c.sig(hash_usizes(&m.rows.concat()) ^ mix(hash_usizes(&expect(pos).0)));
    Ok(())
}

fn out_of_range(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let n = gens::stage(r, 20);
    let (m, o) = (any_block(r, n), any_block(r, n));
    let (rg, _, _) = range(r, o.annots.len(), false);
    c.log(|| format!("extend_range({:?}) of a block of {} rows", rg, o.annots.len()));
    let mut b = build(&m);
    let ob = build(&o);
    if r.bool() {
        let (rg, _, _) = range(r, m.annots.len(), false);
        let res = guard(|| b.extend_from_within(rg));
        ensure!(res.is_err(), "extending a block of {} rows by {:?} of itself gave {:?}", m.annots.len(), rg, b);
        check_block(c, &b, &m, "a panic")?;
    }
    let res = guard(|| b.extend_range(&ob, rg).is_ok());
    ensure!(res.is_err(), "extending by {:?} of a block of {} rows gave {:?} and {:?}", rg, o.annots.len(), res, b);
    check_block(c, &b, &m, "a panic")?;
    check_block(c, &ob, &o, "being copied from")?;
    c.count("panics as documented");
    c.sig(c.idx);
    Ok(())
}

const TRIPPED: usize = usize::MAX;

/// A row which may panic when it's looked at
struct PanickingRow<'r>(&'r RowBuf, bool);

impl AsRef<Row> for PanickingRow<'_> {
    fn as_ref(&self) -> &Row {
        assert!(!self.1, "the row panics");
        self.0
    }
}

/// An annotation which panics when the counter gets to zero
#[derive(Debug)]
struct Fragile<'a>(usize, &'a std::cell::Cell<usize>);

impl Clone for Fragile<'_> {
    fn clone(&self) -> Self {
        self.1.set(self.1.get().wrapping_sub(1));
        assert!(self.1.get() != TRIPPED, "an annotation can't be cloned");
        Fragile(self.0, self.1)
    }
}

/// Whatever of an extension was done before an annotation panicked, the rows and annotations are in step
fn panicking_annots(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let n = gens::stage(r, 20);
    let (m, o) = (any_block(r, n), any_block(r, n));
    let left = std::cell::Cell::new(1_000_000);
    let make = |m: &BM, first: usize| AnnotBlock::with_annots_from_indices(ssv(n, &m.rows), |i| Fragile(first + i, &left)).unwrap();
    let (mut b, ob) = (make(&m, 0), make(&o, 1000));
    let (mut rows, mut annots) = (m.rows.clone(), (0..m.annots.len()).collect::<Vec<_>>());
    for _ in 0..r.range(1, 4) {
        let len = annots.len();
        let (before_rows, before_annots) = (rows.clone(), annots.clone());
        let kind = r.below(3);
        let (rg, x, y) = range(r, if kind == 2 { len } else { o.annots.len() }, true);
        left.set(if r.chance(1, 4) { 1_000_000 } else { r.below(6) });
        let what = format!("{} {}..{}, with {} clones before a panic", ["extend", "extend_range", "extend_from_within"][kind], x, y, left.get());
        c.log(|| what.clone());
        let res = guard(|| match kind {
            0 => b.extend(&ob).is_ok(),
            1 => b.extend_range(&ob, rg).is_ok(),
            _ => {
                b.extend_from_within(rg);
                true
            }
        });
        let tripped = left.replace(1_000_000) == TRIPPED;
        let (from_rows, from_annots): (Vec<Vec<usize>>, Vec<usize>) = match kind {
            0 => (o.rows.clone(), (1000..1000 + o.annots.len()).collect()),
            1 => (o.rows[x..=y].to_vec(), (1000 + x..1000 + y).collect()),
            _ => (rows[x..=y].to_vec(), annots[x..y].to_vec()),
        };
        let t = transposed(&from_rows, rows.last().unwrap());
        rows.extend(t[1..].iter().cloned());
        annots.extend(from_annots);
        let got_annots: Vec<usize> = b.annots().map(|a| a.0).collect();
        let got_rows = ssv_rows(b.row_vec());
        match res {
            Ok(true) => {
                eq!(got_rows, rows, "rows after {}", what);
                eq!(got_annots, annots, "annotations after {}", what);
                c.count("extended");
            }
            Ok(false) => return Err(format!("{} failed", what)),
            Err(e) => {
                ensure!(tripped, "{} panicked although no annotation did: {}", what, e);
                ensure!(
                    got_rows.len() == got_annots.len() + 1 && got_annots.len() >= len && rows.starts_with(&got_rows) && annots.starts_with(&got_annots),
                    "{} left rows {:?} and annotations {:?}, from {:?} and {:?}",
                    what, got_rows, got_annots, before_rows, before_annots
                );
                rows.truncate(got_rows.len());
                annots.truncate(got_annots.len());
                c.count("annotations which panicked");
            }
        }
        eq!(b.len(), annots.len(), "len after {}", what);
        eq!(b.annot_rows().count(), annots.len(), "annot_rows after {}", what);
        is_row(Some(b.leftover_row()), rows.last(), "leftover_row")?;
        if rows.len() > 300 {
            break;
        }
    }
    c.sig(hash_usizes(&rows.concat()) ^ annots.len() as u64);
    Ok(())
}

fn hash_of(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
