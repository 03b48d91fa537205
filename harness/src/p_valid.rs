//! C01: every row which can be reached by any history of safe API calls is a permutation.
//!
//! A random history runs against a pool of rows, row vecs, blocks, masks, accumulators, place
//! notation and methods.  Stages are drawn from a small set, so calls with both matching and
//! mismatching stages are common.  Panics are allowed (and end the use of the objects they
//! touched): only an invalid row is a violation.

use std::collections::HashSet;
use std::sync::Arc;

use bellframe::{
    mask::Mask, method::Method, music::Regex, row::{Row, RowAccumulator, RowBuf}, AnnotBlock, PlaceNot, PnBlock, SameStageVec,
};

use crate::{
    ctx::{self, guard, random, Case, Probe, R},
    ensure, gens,
    model,
    rng::{mix, Rng},
};

pub const C01: &[Probe] = &[
    random("history", 3_000, |c| history(c, &[3, 4, 4, 5], 60)),
    random("history-same-stage", 2_500, |c| history(c, &[6], 60)),
    random("history-big-stages", 1_500, |c| history(c, &[8, 12, 16, 17, 33, 34, 70], 40)),
    random("history-huge-stages", 200, |c| history(c, &[65, 128, 129, 255, 256, 257, 300], 20)),
    random("history-tiny-stages", 1_500, |c| history(c, &[1, 2, 3], 60)),
    random("history-long", 150, |c| history(c, &[2, 5, 6, 7], 800)),
];

#[derive(Default)]
struct Pool {
    rows: Vec<RowBuf>,
    vecs: Vec<SameStageVec>,
    blocks: Vec<AnnotBlock<u32>>,
    masks: Vec<Mask>,
    accs: Vec<RowAccumulator>,
    pns: Vec<PlaceNot>,
    pn_blocks: Vec<PnBlock>,
}

fn check_row(r: &Row, what: &str) -> R {
    let v = gens::ints(r);
    ensure!(model::is_perm(&v), "{} is not a valid row: bell indices {:?}", what, v);
    ensure!(r.stage().num_bells() == v.len(), "{} has stage {:?} but {} bells", what, r.stage(), v.len());
    Ok(())
}

fn check_vec(v: &SameStageVec, what: &str) -> R {
    let n = v.stage().num_bells();
    let mut count = 0;
    for r in v {
        check_row(r, &format!("row {} of {}", count, what))?;
        ensure!(r.stage().num_bells() == n, "row {} of {} has {:?}, not {:?}", count, what, r.stage(), v.stage());
        count += 1;
    }
    ensure!(count == v.len(), "{} has length {} but {} rows", what, v.len(), count);
    for i in [0, v.len() / 2, v.len().wrapping_sub(1)] {
        if let Some(r) = v.get(i) {
            check_row(r, what)?;
        }
    }
    Ok(())
}

fn check_block(b: &AnnotBlock<u32>, what: &str) -> R {
    check_vec(b.row_vec(), what)?;
    ensure!(!b.row_vec().is_empty(), "{} has no rows", what);
    check_row(b.leftover_row(), what)?;
    check_row(b.first_row(), what)
}

fn idx(r: &mut Rng, len: usize) -> usize {
    if r.chance(1, 12) {
        *r.pick(&[len, len + 1, usize::MAX, usize::MAX / 2 + 1, usize::MAX / 8 + 1, usize::MAX / 4 + 1])
    } else {
        r.below(len.max(1))
    }
}

fn range(r: &mut Rng, len: usize) -> std::ops::Range<usize> {
    if r.chance(1, 12) {
        let a = idx(r, len);
        let b = idx(r, len);
        return a..b;
    }
    let a = r.below(len + 1);
    let b = r.range(a, len);
    a..b
}

const N_OPS: usize = 62;

fn history(c: &mut Case, stages: &[usize], max_ops: usize) -> R {
    let mut rng = c.rng.clone();
    let mut p = Pool::default();
    for _ in 0..4 {
        let n = *rng.pick(stages);
        p.rows.push(gens::rb(&gens::perm(&mut rng, n)));
    }
    let n = *rng.pick(stages);
    p.vecs.push(SameStageVec::new(gens::st(n)));
    p.blocks.push(AnnotBlock::empty(gens::st(*rng.pick(stages))));
    p.masks.push(Mask::empty(gens::st(*rng.pick(stages))));
    p.accs.push(RowAccumulator::rounds(gens::st(*rng.pick(stages))));
    let n = *rng.pick(stages);
    let pl = gens::full_places(&mut rng, n);
    p.pns.push(gens::pn(&pl, n));
    p.pn_blocks.push(PnBlock::from_vec(vec![gens::pn(&pl, n)]).unwrap());

    let max_ops = if ctx::small() { max_ops / 2 } else { max_ops };
    let n_ops = rng.range(max_ops / 2, max_ops);
    let mut trace = 0u64;
    for step in 0..n_ops {
        let op = rng.below(N_OPS);
        c.log(|| format!("op {}", op));
        // The objects an op changes are taken out of the pool, so that a panic forgets them
        let res = guard(|| apply(op, &mut rng, &mut p, stages, c.verbose));
        match res {
            Ok(Ok(what)) => {
                c.count(what.0);
                if what.1 {
                    trace = mix(trace ^ (op as u64) ^ ((step as u64) << 8));
                }
                c.log(|| format!("   -> {}", what.0));
            }
            Ok(Err(msg)) => return Err(format!("after step {} (op {}): {}", step, op, msg)),
            Err(panic) => {
                c.count("op panicked (allowed here)");
                c.log(|| format!("   panicked: {}", panic));
            }
        }
        // Bound the pools, dropping random members
        macro_rules! bound {
            ($v:expr, $max:expr) => {
                while $v.len() > $max {
                    let i = rng.below($v.len());
                    $v.swap_remove(i);
                }
            };
        }
        bound!(p.rows, 8);
        bound!(p.vecs, 4);
        bound!(p.blocks, 4);
        bound!(p.masks, 5);
        bound!(p.accs, 2);
        bound!(p.pns, 4);
        bound!(p.pn_blocks, 3);
        if p.vecs.is_empty() {
            p.vecs.push(SameStageVec::new(gens::st(*rng.pick(stages))));
        }
        if p.blocks.is_empty() {
            p.blocks.push(AnnotBlock::empty(gens::st(*rng.pick(stages))));
        }
        if p.accs.is_empty() {
            p.accs.push(RowAccumulator::rounds(gens::st(*rng.pick(stages))));
        }
        if p.masks.is_empty() {
            p.masks.push(Mask::empty(gens::st(*rng.pick(stages))));
        }
        while p.rows.len() < 3 {
            p.rows.push(gens::rb(&gens::perm(&mut rng, *stages.last().unwrap())));
        }
    }
    // At the end of the history, everything has to be valid
    for (i, r) in p.rows.iter().enumerate() {
        check_row(r, &format!("pooled row {}", i))?;
    }
    for v in &p.vecs {
        check_vec(v, "pooled vec")?;
    }
    for b in &p.blocks {
        check_block(b, "pooled block")?;
    }
    for a in &p.accs {
        check_row(a.total(), "accumulator")?;
    }
    for m in &p.masks {
        if let Some(r) = m.as_row() {
            check_row(&r, "the row of a mask")?;
        }
    }
    c.count("histories completed");
    c.sig(trace);
    Ok(())
}

/// Something which shows another row every time it's asked, or panics instead
struct Hostile {
    rows: [RowBuf; 2],
    looked: std::cell::Cell<usize>,
    panics_at: usize,
}

impl AsRef<Row> for Hostile {
    fn as_ref(&self) -> &Row {
        self.looked.set(self.looked.get() + 1);
        assert!(self.looked.get() != self.panics_at, "hostile row");
        &self.rows[self.looked.get() % 2]
    }
}

/// Returns (what happened, whether it did something)
type Done = (&'static str, bool);
const REJECTED: Done = ("call rejected with an error / None", false);

fn apply(op: usize, r: &mut Rng, p: &mut Pool, stages: &[usize], _verbose: bool) -> Result<Done, String> {
    let new_stage = *r.pick(stages);
    let a = r.pick(&p.rows).clone();
    let b = r.pick(&p.rows).clone();
    // A row of the stage of `a` most of the time
    let b = if b.stage() != a.stage() && r.chance(1, 2) {
        gens::rb(&gens::perm(r, a.stage().num_bells()))
    } else {
        b
    };
    let keep = |p: &mut Pool, row: RowBuf, what: &'static str| -> Result<Done, String> {
        check_row(&row, what)?;
        p.rows.push(row);
        Ok((what, true))
    };
    macro_rules! try_keep {
        ($e:expr, $what:expr) => {
            match $e {
                Ok(row) => keep(p, row, $what),
                Err(_) => Ok(REJECTED),
            }
        };
    }
    match op {
        // ROW CONSTRUCTORS
        0 => {
            let s = gens::text(r, 14);
            try_keep!(RowBuf::parse(&s), "RowBuf::parse")
        }
        1 => {
            let s = gens::text(r, 10);
            try_keep!(RowBuf::parse_with_stage(&s, gens::st(new_stage)), "RowBuf::parse_with_stage")
        }
        2 => {
            let st = gens::st(new_stage);
            let row = match r.below(3) {
                0 => RowBuf::rounds(st),
                1 => RowBuf::backrounds(st),
                _ => RowBuf::queens(st),
            };
            keep(p, row, "named row")
        }
        3 => {
            let mut v = gens::perm(r, new_stage);
            for _ in 0..r.below(3) {
                let i = r.below(v.len());
                v[i] = r.below(new_stage + 1);
            }
            if r.chance(1, 4) {
                v.truncate(r.below(v.len() + 1));
            }
            let v = gens::bells(&v);
            match r.below(3) {
                0 => try_keep!(RowBuf::from_vec(v), "RowBuf::from_vec"),
                1 => try_keep!(RowBuf::from_bell_iter(v.into_iter()), "RowBuf::from_bell_iter"),
                _ => try_keep!(
                    RowBuf::from_vec_with_stage(v, gens::st(*r.pick(stages))),
                    "RowBuf::from_vec_with_stage"
                ),
            }
        }
        // ARITHMETIC
        4 => try_keep!(a.mul_result(&b), "mul_result"),
        5 => {
            let row = match r.below(4) {
                0 => &a * &b,
                1 => &a * b.as_row(),
                2 => a.as_row() * &b,
                _ => a.as_row() * b.as_row(),
            };
            keep(p, row, "mul operator")
        }
        6 => {
            let mut out = r.pick(&p.rows).clone();
            let e = a.mul_into(&b, &mut out);
            check_row(&out, "output of mul_into")?;
            p.rows.push(out);
            Ok(if e.is_ok() { ("mul_into", true) } else { REJECTED })
        }
        7 => {
            let mut out = r.pick(&p.rows).clone();
            let e = a.mul_into_row(&b, &mut out);
            check_row(&out, "output of mul_into_row")?;
            p.rows.push(out);
            Ok(if e.is_ok() { ("mul_into_row", true) } else { REJECTED })
        }
        8 => keep(p, a.inv(), "inv"),
        9 => {
            let mut out = r.pick(&p.rows).clone();
            let e = a.inv_into(&mut out);
            check_row(&out, "output of inv_into")?;
            p.rows.push(out);
            Ok(if e.is_ok() { ("inv_into", true) } else { REJECTED })
        }
        10 => {
            let mut out = r.pick(&p.rows).clone();
            a.inv_into_buf(&mut out);
            keep(p, out, "inv_into_buf")
        }
        11 => keep(p, if r.bool() { !&a } else { !a.as_row() }, "not operator"),
        12 => keep(p, a.pow_u(r.below(40)), "pow_u"),
        13 => keep(p, a.pow_i(r.below(40) as isize - 20), "pow_i"),
        14 => try_keep!(Row::solve_ax_equals_b(&a, &b), "solve_ax_equals_b"),
        15 => try_keep!(Row::solve_xa_equals_b(&a, &b), "solve_xa_equals_b"),
        16 => try_keep!(a.tranposition_to(&b), "tranposition_to"),
        17 => {
            let mut out = b;
            match r.below(3) {
                0 => a.copy_into(&mut out),
                1 => out.overwrite_from(&a),
                _ => out = a.as_row().to_owned(),
            }
            keep(p, out, "copy")
        }
        18 => {
            let rc = a.to_rc();
            check_row(&rc, "Rc<Row>")?;
            let rc2 = rc.clone();
            drop(rc);
            keep(p, rc2.as_ref().to_owned(), "to_rc")
        }
        19 => {
            let arc: Arc<Row> = a.to_arc();
            check_row(&arc, "Arc<Row>")?;
            keep(p, (*arc).to_owned(), "to_arc")
        }
        20 => {
            let g = gens::rb(&gens::perm_small_order(r, new_stage, 60));
            let v = if r.bool() { g.closure() } else { g.closure_from_rounds() };
            for row in &v {
                check_row(row, "row of a closure")?;
            }
            keep(p, r.pick(&v).clone(), "closure")
        }
        21 => {
            let n_sets = r.range(0, 3);
            let sets: Vec<Vec<RowBuf>> = (0..n_sets)
                .map(|_| {
                    (0..r.range(1, 3))
                        .map(|_| if r.chance(1, 20) { r.pick(&p.rows).clone() } else { gens::rb(&gens::perm(r, new_stage)) })
                        .collect()
                })
                .collect();
            match Row::multi_cartesian_product(sets) {
                Ok(v) => {
                    for row in &v {
                        check_row(row, "row of a cartesian product")?;
                    }
                    if let Some(row) = v.into_iter().next() {
                        return keep(p, row, "multi_cartesian_product");
                    }
                    Ok(("multi_cartesian_product (empty)", false))
                }
                Err(_) => Ok(REJECTED),
            }
        }
        22 => {
            let n = new_stage.min(5);
            let gens_: Vec<RowBuf> = (0..r.range(1, 2)).map(|_| gens::rb(&gens::perm(r, n))).collect();
            if r.chance(1, 4) {
                // An iterator which yields something else whenever it's copied
                let m = r.range(1, n + 1);
                let others: Vec<RowBuf> = (0..2).map(|_| gens::rb(&gens::perm(r, m))).collect();
                let looks = std::cell::Cell::new(0usize);
                let first = r.range(1, 3);
                let rows = (0..2).map(|_| {
                    looks.set(looks.get() + 1);
                    if looks.get() <= first { gens_[0].as_row() } else { others[looks.get() % 2].as_row() }
                });
                return Ok(match guard(|| Row::least_group_containing(rows)) {
                    Ok(Ok(s)) => {
                        for row in &s {
                            check_row(row, "row of a group (of an iterator whose copies differ)")?;
                        }
                        ("least_group_containing (hostile)", true)
                    }
                    Ok(Err(_)) => REJECTED,
                    Err(_) => ("least_group_containing (hostile, panicked)", true),
                });
            }
            match Row::least_group_containing(gens_.iter().map(|r| r.as_row())) {
                Ok(s) => {
                    let s: HashSet<RowBuf> = s;
                    for row in &s {
                        check_row(row, "row of a group")?;
                    }
                    Ok(("least_group_containing", true))
                }
                Err(_) => Ok(REJECTED),
            }
        }
        23 => {
            let mut out = a;
            let n = out.stage().num_bells();
            let (i, j) = (idx(r, n), idx(r, n));
            match r.below(3) {
                0 => out.swap(i, j),
                1 => out.as_mut_row().swap(i, j),
                _ => AsMut::<Row>::as_mut(&mut out).swap(i, j),
            }
            keep(p, out, "swap")
        }
        24 => {
            let mut out = a;
            out.parity();
            keep(p, out, "parity (which changes its row)")
        }
        25 => {
            let mut out = a;
            out.extend_to_stage(gens::st(new_stage));
            keep(p, out, "extend_to_stage")
        }
        // ACCUMULATORS
        26 => {
            let i = r.below(p.accs.len());
            let mut acc = p.accs.swap_remove(i);
            let what = match r.below(6) {
                0 => acc.accumulate(&a).is_ok(),
                1 => acc.pre_accumulate(&a).is_ok(),
                2 => {
                    acc.set(&a);
                    true
                }
                3 => {
                    acc *= a.as_row();
                    true
                }
                4 => {
                    acc *= &a;
                    true
                }
                _ => {
                    let t = acc.clone().into_total();
                    p.rows.push(t.clone());
                    acc = RowAccumulator::new(t);
                    true
                }
            };
            check_row(acc.total(), "accumulator")?;
            p.accs.push(acc);
            Ok(if what { ("accumulator", true) } else { REJECTED })
        }
        // ROW VECS
        27 => {
            p.vecs.push(SameStageVec::new(gens::st(new_stage)));
            Ok(("new vec", false))
        }
        28 => {
            let s = if r.chance(1, 3) {
                gens::text(r, 30)
            } else {
                (0..r.below(5)).map(|_| gens::show(&gens::perm(r, new_stage.min(33)))).collect::<Vec<_>>().join("\n")
            };
            match SameStageVec::parse(&s) {
                Ok(v) => {
                    check_vec(&v, "parsed vec")?;
                    p.vecs.push(v);
                    Ok(("SameStageVec::parse", true))
                }
                Err(_) => Ok(REJECTED),
            }
        }
        29 => {
            p.vecs.push(SameStageVec::from_row_buf(a));
            Ok(("from_row_buf", true))
        }
        30..=47 => {
            let i = r.below(p.vecs.len());
            let other = r.pick(&p.vecs).clone();
            let mut v = p.vecs.swap_remove(i);
            // Usually use rows of the right stage
            let row = if a.stage() != v.stage() && r.chance(2, 3) {
                gens::rb(&gens::perm(r, v.stage().num_bells()))
            } else {
                a
            };
            let len = v.len();
            let done: Done = match op {
                30 | 31 | 32 => if v.push(&row).is_ok() { ("push", true) } else { REJECTED },
                33 => {
                    if let Some(row) = v.pop() {
                        check_row(&row, "popped row")?;
                        p.rows.push(row);
                        ("pop", true)
                    } else {
                        REJECTED
                    }
                }
                34 => {
                    let rows = [row.clone(), b.clone(), row.clone()];
                    if r.chance(1, 3) {
                        // Rows which aren't the same each time they're looked at, from an iterator which panics
                        let hostile: Vec<Hostile> = (0..r.below(6))
                            .map(|_| Hostile { rows: [r.pick(&rows).clone(), r.pick(&rows).clone()], looked: std::cell::Cell::new(r.below(2)), panics_at: if r.chance(1, 8) { r.range(1, 4) } else { 0 } })
                            .collect();
                        let panic_at = r.below(8);
                        let res = guard(|| {
                            v.extend(hostile.into_iter().enumerate().map(|(i, h)| {
                                if i == panic_at {
                                    panic!("hostile iterator");
                                }
                                h
                            }))
                            .is_ok()
                        });
                        check_vec(&v, "vec after a hostile extend")?;
                        match res {
                            Ok(true) => ("extend (hostile)", true),
                            Ok(false) => REJECTED,
                            Err(_) => ("extend (hostile, panicked)", true),
                        }
                    } else if v.extend(rows[..r.range(1, 3)].iter()).is_ok() { ("extend", true) } else { REJECTED }
                }
                35 => if v.extend_from_buf(&other).is_ok() { ("extend_from_buf", true) } else { REJECTED },
                36 => if v.extend_transposed(&row, &other).is_ok() { ("extend_transposed", true) } else { REJECTED },
                37 | 38 => {
                    let rg = range(r, other.len());
                    if v.extend_range_transposed(&row, &other, rg).is_ok() { ("extend_range_transposed", true) } else { REJECTED }
                }
                39 | 40 => {
                    let rg = range(r, len);
                    let e = match r.below(4) {
                        0 => v.extend_transposed_from_within(rg.start.., &row),
                        1 => v.extend_transposed_from_within(..rg.end, &row),
                        _ => v.extend_transposed_from_within(rg, &row),
                    };
                    if e.is_ok() { ("extend_transposed_from_within", true) } else { REJECTED }
                }
                41 => if v.pre_multiply(&row).is_ok() { ("vec pre_multiply", true) } else { REJECTED },
                42 => if v.permute(&row).is_ok() { ("vec permute", true) } else { REJECTED },
                43 => match v.pre_multiplied(&row) {
                    Ok(v2) => {
                        check_vec(&v2, "pre_multiplied vec")?;
                        p.vecs.push(v2);
                        ("pre_multiplied", true)
                    }
                    Err(_) => REJECTED,
                },
                44 => {
                    let at = idx(r, len + 1);
                    match v.clone().split(at) {
                        Some((x, y)) => {
                            check_vec(&x, "first part of a split vec")?;
                            check_vec(&y, "second part of a split vec")?;
                            p.vecs.push(x);
                            v = y;
                            ("vec split", true)
                        }
                        None => REJECTED,
                    }
                }
                45 => {
                    let n = v.stage().num_bells();
                    let (x, y) = (r.below(n), r.below(n));
                    let m = match r.below(3) {
                        0 => v.first_mut(),
                        1 => v.last_mut(),
                        _ => v.get_mut(idx(r, len)),
                    };
                    match m {
                        Some(m) => {
                            check_row(m, "row got by get_mut")?;
                            m.swap(x, y);
                            let _ = row.mul_into_row(&b, m);
                            let _ = b.inv_into(m);
                            ("change a row of a vec in place", true)
                        }
                        None => REJECTED,
                    }
                }
                46 => {
                    let at = idx(r, len);
                    match v.get(at) {
                        Some(row) => {
                            check_row(row, "row got by get")?;
                            ensure!(row.stage() == v.stage(), "get({}) has the wrong stage", at);
                            ("get", true)
                        }
                        None => REJECTED,
                    }
                }
                _ => {
                    let mut it = v.iter();
                    while let Some(row) = if r.bool() { it.next() } else { it.next_back() } {
                        check_row(row, "row yielded by an iterator")?;
                    }
                    ("iterate from both ends", true)
                }
            };
            check_vec(&v, "vec")?;
            if v.len() <= 200 {
                p.vecs.push(v);
            }
            Ok(done)
        }
        // BLOCKS
        48 => {
            let v = r.pick(&p.vecs).clone();
            let b = match AnnotBlock::with_annots_from_indices(v, |i| i as u32) {
                Some(b) => b,
                None => return Ok(REJECTED),
            };
            check_block(&b, "block")?;
            p.blocks.push(b);
            Ok(("with_annots_from_indices", true))
        }
        49..=55 => {
            let i = r.below(p.blocks.len());
            let other = r.pick(&p.blocks).clone();
            let mut bl = p.blocks.swap_remove(i);
            let row = if a.stage() != bl.stage() && r.chance(2, 3) {
                gens::rb(&gens::perm(r, bl.stage().num_bells()))
            } else {
                a
            };
            let done: Done = match op {
                49 => if bl.extend(&other).is_ok() { ("block extend", true) } else { REJECTED },
                50 | 51 => {
                    let rg = range(r, other.len());
                    let e = match r.below(4) {
                        0 => bl.extend_range(&other, rg.start..),
                        1 => bl.extend_range(&other, ..rg.end),
                        _ => bl.extend_range(&other, rg),
                    };
                    if e.is_ok() { ("block extend_range", true) } else { REJECTED }
                }
                52 => {
                    let rg = range(r, bl.len());
                    bl.extend_from_within(rg);
                    ("block extend_from_within", true)
                }
                53 => if bl.pre_multiply(&row).is_ok() { ("block pre_multiply", true) } else { REJECTED },
                54 => match bl.clone().split(idx(r, bl.len() + 1)) {
                    Some((x, y)) => {
                        check_block(&x, "first part of a split block")?;
                        check_block(&y, "second part of a split block")?;
                        p.blocks.push(x);
                        bl = y;
                        ("block split", true)
                    }
                    None => REJECTED,
                },
                _ => match bl.repeat_iter(row) {
                    Ok(mut it) => {
                        let mut out = b;
                        for _ in 0..12 {
                            match it.next() {
                                Some((row, _, _)) => check_row(&row, "row of a repeated block")?,
                                None => break,
                            }
                            if it.next_into(&mut out).is_some() {
                                check_row(&out, "row of a repeated block")?;
                            }
                        }
                        ("repeat_iter", true)
                    }
                    Err(_) => REJECTED,
                },
            };
            check_block(&bl, "block")?;
            if bl.len() <= 200 {
                if r.chance(1, 6) {
                    p.vecs.push(bl.clone().into_row_vec());
                }
                p.blocks.push(bl);
            }
            Ok(done)
        }
        // MASKS
        56 | 57 => {
            let i = r.below(p.masks.len());
            let mut m = p.masks.swap_remove(i);
            let n = m.stage().num_bells();
            let what: Done = match r.below(8) {
                0 => {
                    m = Mask::parse(&gens::text(r, new_stage + 2));
                    if m.to_string().is_empty() {
                        return Ok(REJECTED);
                    }
                    ("Mask::parse", true)
                }
                1 => {
                    m = Mask::full_row(&a);
                    ("Mask::full_row", true)
                }
                2 => {
                    let (x, y) = (r.below(n + 1), r.below(n));
                    if m.set_bell(gens::bell(x), y).is_ok() { ("set_bell", true) } else { REJECTED }
                }
                3 => if m.fix(gens::bell(r.below(n))).is_ok() { ("fix", true) } else { REJECTED },
                4 => match m.combine(r.pick(&p.masks)) {
                    Some(m2) => {
                        m = m2;
                        ("combine", true)
                    }
                    None => REJECTED,
                },
                5 => {
                    m = &m * a.as_row();
                    ("mask * row", true)
                }
                6 => {
                    m = a.as_row() * &m;
                    ("row * mask", true)
                }
                _ => {
                    let reg = Regex::from(m.clone());
                    if reg.matches(&a) { ("mask regex matched", true) } else { ("mask regex didn't match", true) }
                }
            };
            if let Some(row) = m.as_row() {
                keep(p, row, "Mask::as_row")?;
            }
            p.masks.push(m);
            Ok(what)
        }
        // PLACE NOTATION
        58 => {
            let new = match r.below(3) {
                0 => PlaceNot::parse(&gens::text(r, 4), gens::st(new_stage)).ok(),
                1 => PlaceNot::pn_between(&a, &b),
                _ => PlaceNot::parse(&gens::show(&gens::places(r, new_stage.min(33))), gens::st(new_stage)).ok(),
            };
            match new {
                Some(pn) => {
                    check_row(&pn.transposition(), "transposition of a place notation")?;
                    p.pns.push(pn);
                    Ok(("new place notation", true))
                }
                None => Ok(REJECTED),
            }
        }
        59 => {
            let pn = r.pick(&p.pns).clone();
            let row = if r.chance(2, 3) { gens::rb(&gens::perm(r, pn.stage().num_bells())) } else { a };
            if r.bool() {
                try_keep!(pn.permute_new(&row), "permute_new")
            } else {
                let mut row = row;
                let e = pn.permute(&mut row);
                check_row(&row, "row changed by a place notation")?;
                p.rows.push(row);
                Ok(if e.is_ok() { ("permute", true) } else { REJECTED })
            }
        }
        60 => {
            let new = if r.bool() {
                PnBlock::parse(&gens::text(r, 12), gens::st(new_stage)).ok()
            } else {
                PnBlock::from_iter((0..r.below(4)).map(|_| r.pick(&p.pns).clone())).ok()
            };
            if let Some(b) = new {
                p.pn_blocks.push(b);
            }
            let blk = r.pick(&p.pn_blocks).clone();
            let row = if r.chance(2, 3) { gens::rb(&gens::perm(r, blk.stage().num_bells())) } else { a };
            match blk.to_block::<u32>(row) {
                Ok(b) => {
                    check_block(&b, "block from place notation")?;
                    p.blocks.push(b);
                    Ok(("PnBlock::to_block", true))
                }
                Err(_) => Ok(REJECTED),
            }
        }
        _ => {
            let blk = r.pick(&p.pn_blocks).clone();
            if model::order(&gens::ints(blk.to_block_from_rounds::<()>().leftover_row())) > 60 {
                return Ok(REJECTED);
            }
            let m = Method::with_lead_end("M".to_owned(), &blk);
            check_row(m.lead_head(), "lead head")?;
            check_vec(m.plain_course().row_vec(), "plain course")?;
            keep(p, m.row_in_plain_course(r.below(200)), "method rows")
        }
    }
}

