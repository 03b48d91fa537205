//! C02-C06, C22, C23: rows

use std::{
    borrow::Borrow,
    collections::{hash_map::DefaultHasher, BTreeMap, BTreeSet, HashMap, HashSet},
    hash::{Hash, Hasher},
    str::FromStr,
};

use bellframe::{
    mask::Mask,
    music::Regex,
    row::{DbgRow, MulIntoError, Row, RowAccumulator, RowBuf},
    AnnotBlock, Bell, IncompatibleStages, InvalidRowError, Method, Parity, PlaceNot, PnBlock, SameStageVec, Stage,
};

use crate::{
    ctx::{exhaustive, guard, random, Case, Probe, R},
    ensure, eq,
    gens::{self, bell, bells, ints, rb, show, st},
    model::{self, RowFault, E},
    p_music::{elems, elems_text, to_elem},
    rng::{hash_usizes, mix, Rng},
};

fn is_row(r: &Row, expected: &[usize], what: &str) -> R {
    let got = ints(r);
    ensure!(got == expected, "{}: got bell indices {:?}, expected {:?}", what, got, expected);
    Ok(())
}

/// Check a row through several of its views
fn is_row_buf(r: &RowBuf, expected: &[usize], what: &str) -> R {
    is_row(r, expected, what)?;
    eq!(r.stage().num_bells(), expected.len(), "{}: stage", what);
    Ok(())
}

/* ===== C02: CONSTRUCTORS ===== */

pub const C02: &[Probe] = &[
    exhaustive("all-short-lists", 19_531, 19_531, |c| {
        // Every list of up to 6 of the numbers 0..5 (in order of length)
        let mut i = c.idx;
        let mut len = 0;
        let mut count = 1u64;
        while i >= count {
            i -= count;
            count *= 5;
            len += 1;
        }
        let v: Vec<usize> = (0..len)
            .map(|_| {
                let d = (i % 5) as usize;
                i /= 5;
                d
            })
            .collect();
        check_list(c, &v)
    }),
    random("lists", 60_000, |c| {
        let v = dirty_list(&mut c.rng);
        check_list(c, &v)
    }),
    random("strings", 40_000, |c| {
        let s = if c.rng.chance(1, 3) {
            gens::text(&mut c.rng, 40)
        } else {
            let v = dirty_list(&mut c.rng);
            let s: String = v.iter().filter(|&&b| b < 33).map(|&b| model::bell_name(b)).collect();
            gens::sprinkle(&mut c.rng, &s, &['|', ' ', '[', ']', '\t', 'x', '.', 'I', 'O', 'e', 't', 'é', '🦀', '\0', '\n', '１'])
        };
        check_string(c, &s)
    }),
    random("with-stage", 80_000, |c| {
        let v = dirty_list(&mut c.rng);
        let n = match c.rng.below(4) {
            0 => gens::stage(&mut c.rng, 300),
            1 => v.len().max(1),
            2 => (v.len() + c.rng.below(4)).max(1),
            _ => v.iter().max().map_or(1, |x| (*x).min(400) + 1),
        };
        check_with_stage(c, &v, n)
    }),
];

fn dirty_list(r: &mut Rng) -> Vec<usize> {
    let n = gens::stage(r, 130);
    let mut v = gens::perm(r, n);
    if r.chance(2, 3) {
        for _ in 0..r.range(1, 3) {
            match r.below(8) {
                0 if !v.is_empty() => {
                    let i = r.below(v.len());
                    v.remove(i);
                }
                1 => {
                    let i = r.below(v.len() + 1);
                    let b = r.below(n);
                    v.insert(i, b);
                }
                2 if !v.is_empty() => {
                    let i = r.below(v.len());
                    v[i] = *r.pick(&[n, n + 1, n - 1, 0, usize::MAX - 1, gens::two_to(40), n + 20]);
                }
                3 if !v.is_empty() => {
                    let (i, j) = (r.below(v.len()), r.below(v.len()));
                    v[i] = v[j];
                }
                4 => v.truncate(r.below(v.len() + 1)),
                5 => v.push(n),
                6 if r.chance(1, 4) => v.clear(),
                _ => {
                    // All shifted up by one (i.e. missing the treble)
                    if r.chance(1, 2) {
                        v.iter_mut().for_each(|b| *b = b.saturating_add(1).min(usize::MAX - 1));
                    }
                }
            }
        }
    }
    v
}

/// Every way in which a list of bells isn't a row of `n` bells.
fn row_error_is_true(e: &InvalidRowError, v: &[usize], n: usize) -> R {
    let fault = match e {
        InvalidRowError::NoBells => RowFault::NoBells,
        InvalidRowError::DuplicateBell(b) => RowFault::Dup(b.index()),
        InvalidRowError::BellOutOfStage(b, s) => RowFault::Out(b.index(), s.num_bells()),
        InvalidRowError::MissingBell(b) => RowFault::Missing(b.index()),
    };
    let times = |b: usize| v.iter().filter(|x| **x == b).count();
    let truth = match fault {
        RowFault::NoBells => v.is_empty(),
        RowFault::Dup(b) => times(b) > 1,
        RowFault::Out(b, s) => times(b) > 0 && s == n && b >= n,
        RowFault::Missing(b) => times(b) == 0 && b < n,
    };
    ensure!(truth, "the error {:?} isn't true of the bell indices {:?} on {} bells", e, v, n);
    // The message has to name the bell
    let msg = e.to_string();
    if let RowFault::Dup(b) | RowFault::Out(b, _) | RowFault::Missing(b) = fault {
        ensure!(msg.contains(&model::bell_name(b)), "message {:?} doesn't name the bell {}", msg, model::bell_name(b));
    }
    Ok(())
}

fn check_result(res: Result<RowBuf, InvalidRowError>, v: &[usize], n: usize, expected: Option<&[usize]>, what: &str) -> R {
    match (res, expected) {
        (Ok(r), Some(e)) => is_row_buf(&r, e, what),
        (Ok(r), None) => Err(format!("{} accepted the bell indices {:?} (giving {:?})", what, v, ints(&r))),
        (Err(e), Some(_)) => Err(format!("{} rejected {:?} with {:?}", what, v, e)),
        (Err(e), None) => row_error_is_true(&e, v, n).map_err(|m| format!("{}: {}", what, m)),
    }
}

fn check_list(c: &mut Case, v: &[usize]) -> R {
    c.log(|| format!("bells {:?}", v));
    let valid = model::is_perm(v);
    c.count(if valid { "valid lists" } else { "invalid lists" });
    let expected = valid.then_some(v);
    check_result(RowBuf::from_vec(bells(v)), v, v.len(), expected, "from_vec")?;
    check_result(RowBuf::from_bell_iter(gens::vague(&mut c.rng, v.iter().map(|&b| bell(b)))), v, v.len(), expected, "from_bell_iter")?;
    if v.iter().all(|&b| b < 33) {
        let s = show(v);
        check_result(RowBuf::parse(&s), v, v.len(), expected, "parse")?;
        check_result(RowBuf::from_str(&s), v, v.len(), expected, "from_str")?;
    }
    if !v.is_empty() {
        check_with_stage(c, v, v.len())?;
    }
    c.sig(hash_usizes(v));
    Ok(())
}

fn check_string(c: &mut Case, s: &str) -> R {
    let v = model::chars_to_bells(s);
    c.log(|| format!("string {:?} has bells {:?}", s, v));
    let valid = model::is_perm(&v);
    c.count(if valid { "valid strings" } else { "invalid strings" });
    let expected = valid.then_some(&v[..]);
    check_result(RowBuf::parse(s), &v, v.len(), expected, "parse")?;
    check_result(s.parse::<RowBuf>(), &v, v.len(), expected, "str::parse")?;
    let n = (v.len() + c.rng.below(3)).max(1);
    let full = prefix_row(&v, n);
    check_result(RowBuf::parse_with_stage(s, st(n)), &v, n, full.as_deref(), "parse_with_stage")?;
    c.sig(hash_usizes(&v));
    Ok(())
}

/// The row made by adding cover bells
fn prefix_row(v: &[usize], n: usize) -> Option<Vec<usize>> {
    if v.len() > n || !(v.is_empty() || model::is_perm(v)) {
        return None;
    }
    Some(v.iter().copied().chain(v.len()..n).collect())
}

fn check_with_stage(c: &mut Case, v: &[usize], n: usize) -> R {
    c.log(|| format!("bells {:?} on {} bells", v, n));
    let expected = prefix_row(v, n);
    c.count(if expected.is_some() { "valid with stage" } else { "invalid with stage" });
    if v.is_empty() {
        // The docs don't say whether or not no bells can be extended
        if let Ok(r) = RowBuf::from_vec_with_stage(vec![], st(n)) {
            is_row_buf(&r, &model::id(n), "from_vec_with_stage of nothing")?;
        }
        return Ok(());
    }
    check_result(RowBuf::from_vec_with_stage(bells(v), st(n)), v, n, expected.as_deref(), "from_vec_with_stage")?;
    if v.iter().all(|&b| b < 33) {
        check_result(RowBuf::parse_with_stage(&show(v), st(n)), v, n, expected.as_deref(), "parse_with_stage")?;
    }
    if let Some(e) = expected {
        let mut r = rb(v);
        r.extend_to_stage(st(n));
        is_row_buf(&r, &e, "extend_to_stage")?;
    }
    c.sig(mix(hash_usizes(v) ^ n as u64));
    Ok(())
}

/* ===== C03: PRODUCTS ===== */

pub const C03: &[Probe] = &[
    exhaustive("all-pairs-up-to-4", 617, 617, |c| {
        let mut i = c.idx;
        for n in 1..=4 {
            let f = model::factorial(n) as u64;
            if i < f * f {
                let (a, b) = (model::nth_perm(n, i % f), model::nth_perm(n, i / f));
                return products(c, &a, &b);
            }
            i -= f * f;
        }
        Ok(())
    }),
    exhaustive("all-pairs-5", 14_400, 14_400, |c| {
        let (a, b) = (model::nth_perm(5, c.idx % 120), model::nth_perm(5, c.idx / 120));
        products(c, &a, &b)
    }),
    random("random-pairs", 60_000, |c| {
        let n = gens::stage(&mut c.rng, 300);
        let (a, b) = (gens::perm(&mut c.rng, n), gens::perm(&mut c.rng, n));
        products(c, &a, &b)
    }),
    random("mismatches", 60_000, |c| {
        let n = gens::stage(&mut c.rng, 300);
        let m = if c.rng.bool() { n + 1 } else { gens::stage(&mut c.rng, 100) };
        let (n, m) = if c.rng.bool() { (n, m) } else { (m, n) };
        let (a, b) = (gens::perm(&mut c.rng, n), gens::perm(&mut c.rng, m));
        let k = *c.rng.pick(&[n, m, n + 1]);
        let o = gens::perm(&mut c.rng, k);
        mismatch(c, &a, &b, &o)
    }),
    random("accumulators", 30_000, |c| accumulators(c)),
];

fn products(c: &mut Case, a: &[usize], b: &[usize]) -> R {
    c.log(|| format!("{} * {}", show(a), show(b)));
    let e = model::mul(a, b);
    let n = a.len();
    let (ra, rbb) = (rb(a), rb(b));
    is_row_buf(&ra.mul_result(&rbb).map_err(|e| format!("mul_result failed: {}", e))?, &e, "mul_result")?;
    is_row_buf(&(&ra * &rbb), &e, "&RowBuf * &RowBuf")?;
    is_row_buf(&(&ra * rbb.as_row()), &e, "&RowBuf * &Row")?;
    is_row_buf(&(ra.as_row() * &rbb), &e, "&Row * &RowBuf")?;
    is_row_buf(&(ra.as_row() * rbb.as_row()), &e, "&Row * &Row")?;
    unsafe { is_row_buf(&ra.mul_unchecked(&rbb), &e, "mul_unchecked")? };
    // Outputs of any stage can be written into
    let m = gens::stage(&mut c.rng, 300);
    let mut out = rb(&gens::perm(&mut c.rng, m));
    ra.mul_into(&rbb, &mut out).map_err(|e| format!("mul_into failed: {}", e))?;
    is_row_buf(&out, &e, "mul_into")?;
    let mut out = rb(&gens::perm(&mut c.rng, m));
    unsafe { ra.mul_into_unchecked(&rbb, &mut out) };
    is_row_buf(&out, &e, "mul_into_unchecked")?;
    let mut out = rb(&gens::perm(&mut c.rng, n));
    ra.mul_into_row(&rbb, &mut out).map_err(|e| format!("mul_into_row failed: {}", e))?;
    is_row_buf(&out, &e, "mul_into_row")?;
    let mut out = rb(&gens::perm(&mut c.rng, n));
    unsafe { ra.mul_into_row_unchecked(&rbb, &mut out) };
    is_row_buf(&out, &e, "mul_into_row_unchecked")?;
    // The inputs haven't changed
    is_row_buf(&ra, a, "left input after multiplying")?;
    is_row_buf(&rbb, b, "right input after multiplying")?;
    c.count("products");
    c.sig(mix(hash_usizes(a)) ^ hash_usizes(b));
    Ok(())
}

/// The message has to name both stages
fn names_stages(e: &str, n: usize, m: usize, what: &str) -> R {
    for s in [n, m] {
        ensure!(
            e.contains(&model::stage_display(s)) || e.contains(&s.to_string()),
            "{}: the error {:?} doesn't mention the stage {}",
            what,
            e,
            model::stage_display(s)
        );
    }
    Ok(())
}

/// The message has to name both stages, the left one first
fn names_in_order(e: &str, n: usize, m: usize, what: &str) -> R {
    let (n, m) = (model::stage_display(n), model::stage_display(m));
    match e.find(&n) {
        Some(i) if e[i + n.len()..].contains(&m) => Ok(()),
        _ => Err(format!("{}: the error {:?} doesn't say {} and then {}", what, e, n, m)),
    }
}

fn mismatch(c: &mut Case, a: &[usize], b: &[usize], o: &[usize]) -> R {
    c.log(|| format!("{} * {} into {}", show(a), show(b), show(o)));
    let (ra, rbb) = (rb(a), rb(b));
    let same = a.len() == b.len();
    let e = if same { Some(model::mul(a, b)) } else { None };
    let (n, m, k) = (a.len(), b.len(), o.len());
    let row_result = |r: Result<RowBuf, IncompatibleStages>, e: &Option<Vec<usize>>, what: &str| -> R {
        match (r, e) {
            (Ok(r), Some(e)) => is_row_buf(&r, e, what),
            (Err(err), None) => names_stages(&err.to_string(), n, m, what),
            (Ok(r), None) => Err(format!("{} of mismatched stages gave {:?}", what, ints(&r))),
            (Err(e), Some(_)) => Err(format!("{} of equal stages failed: {}", what, e)),
        }
    };
    row_result(ra.mul_result(&rbb), &e, "mul_result")?;
    if let Err(err) = ra.mul_result(&rbb) {
        eq!(
            err.to_string(),
            format!("Incompatible stages: {} (lhs), {} (rhs)", model::stage_display(n), model::stage_display(m)),
            "message of mul_result"
        );
    }
    // The test which all of these use
    match IncompatibleStages::test_err(st(n), st(m)) {
        Ok(()) => ensure!(same, "test_err accepted the stages {} and {}", n, m),
        Err(err) => {
            ensure!(!same, "test_err rejected the equal stages {} and {}", n, m);
            names_in_order(&err.to_string(), n, m, "test_err")?;
        }
    }
    let mut opt = None;
    for (i, x) in [n, m, k, n].into_iter().enumerate() {
        let got = IncompatibleStages::test_err_opt(&mut opt, st(x));
        eq!(got.is_ok(), x == n, "test_err_opt of stage {} ({}) after {}", x, i, n);
        eq!(opt, Some(st(n)), "stage kept by test_err_opt");
        if let Err(err) = got {
            names_in_order(&err.to_string(), n, x, "test_err_opt")?;
        }
    }
    // Operators panic
    if !same {
        c.count("mismatched operators");
        ensure!(guard(|| &ra * &rbb).is_err(), "&RowBuf * &RowBuf of stages {} and {} didn't panic", n, m);
        ensure!(guard(|| &ra * rbb.as_row()).is_err(), "&RowBuf * &Row of stages {} and {} didn't panic", n, m);
        ensure!(guard(|| ra.as_row() * &rbb).is_err(), "&Row * &RowBuf of stages {} and {} didn't panic", n, m);
        ensure!(guard(|| ra.as_row() * rbb.as_row()).is_err(), "&Row * &Row of stages {} and {} didn't panic", n, m);
    }
    let mut out = rb(o);
    match (ra.mul_into(&rbb, &mut out), &e) {
        (Ok(()), Some(e)) => is_row_buf(&out, e, "mul_into")?,
        (Err(err), None) => {
            names_in_order(&err.to_string(), n, m, "mul_into")?;
            is_row_buf(&out, o, "output of a failed mul_into")?
        }
        (r, _) => return Err(format!("mul_into of stages {} and {} gave {:?}", n, m, r.is_ok())),
    }
    let mut out = rb(o);
    match (ra.mul_into_row(&rbb, &mut out), n == m && m == k) {
        (Ok(()), true) => is_row_buf(&out, e.as_ref().unwrap(), "mul_into_row")?,
        (Err(err), false) => {
            c.count("mismatched mul_into_row");
            is_row_buf(&out, o, "output of a failed mul_into_row")?;
            match err {
                MulIntoError::RhsStage(_) => {
                    ensure!(n != m, "mul_into_row blamed the right hand side ({} * {} into {})", n, m, k);
                    names_in_order(&err.to_string(), n, m, "mul_into_row")?;
                }
                MulIntoError::IntoStage(_) => {
                    ensure!(n != k, "mul_into_row blamed the output ({} * {} into {})", n, m, k);
                    names_in_order(&err.to_string(), n, k, "mul_into_row")?;
                }
            }
        }
        (r, _) => return Err(format!("mul_into_row of stages {} and {} into {} gave {:?}", n, m, k, r.is_ok())),
    }
    let mut out = rb(o);
    match (ra.inv_into(&mut out), n == k) {
        (Ok(()), true) => is_row_buf(&out, &model::inv(a), "inv_into")?,
        (Err(err), false) => {
            is_row_buf(&out, o, "output of a failed inv_into")?;
            names_in_order(&err.to_string(), n, k, "inv_into")?;
        }
        (r, _) => return Err(format!("inv_into of stage {} into {} gave {:?}", n, k, r.is_ok())),
    }
    row_result(Row::solve_ax_equals_b(&ra, &rbb), &same.then(|| model::mul(&model::inv(a), b)), "solve_ax_equals_b")?;
    row_result(Row::solve_xa_equals_b(&ra, &rbb), &same.then(|| model::mul(b, &model::inv(a))), "solve_xa_equals_b")?;
    row_result(ra.tranposition_to(&rbb), &same.then(|| model::mul(b, &model::inv(a))), "tranposition_to")?;
    // Accumulators
    let mut acc = RowAccumulator::new(ra.clone());
    match (acc.accumulate(&rbb), &e) {
        (Ok(()), Some(e)) => is_row(acc.total(), e, "accumulate")?,
        (Err(err), None) => {
            names_stages(&err.to_string(), n, m, "accumulate")?;
            is_row(acc.total(), a, "accumulator after a failed accumulate")?
        }
        _ => return Err("accumulate disagrees about stages".to_owned()),
    }
    let mut acc = RowAccumulator::new(rbb.clone());
    match (acc.pre_accumulate(&ra), &e) {
        (Ok(()), Some(e)) => is_row(acc.total(), e, "pre_accumulate")?,
        (Err(err), None) => {
            names_stages(&err.to_string(), n, m, "pre_accumulate")?;
            is_row(acc.total(), b, "accumulator after a failed pre_accumulate")?
        }
        _ => return Err("pre_accumulate disagrees about stages".to_owned()),
    }
    if !same {
        let mut acc = RowAccumulator::new(ra.clone());
        ensure!(guard(|| acc *= &rbb).is_err(), "accumulator *= &RowBuf of the wrong stage didn't panic");
        let mut acc = RowAccumulator::new(ra.clone());
        ensure!(guard(|| acc *= rbb.as_row()).is_err(), "accumulator *= &Row of the wrong stage didn't panic");
    }
    is_row_buf(&ra, a, "left input")?;
    is_row_buf(&rbb, b, "right input")?;
    if !same {
        c.sig(mix(((n as u64) << 32) ^ ((m as u64) << 16) ^ k as u64));
    }
    Ok(())
}

fn accumulators(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = gens::stage(r, 300);
    let mut model_total = gens::perm(r, n);
    let mut acc = if r.bool() {
        model_total = model::id(n);
        RowAccumulator::rounds(st(n))
    } else {
        RowAccumulator::new(rb(&model_total))
    };
    let mut trace = vec![n];
    for step in 0..r.range(1, 20) {
        // A stage of 0 means "the accumulator's own stage"
        let k = if r.chance(1, 6) { gens::stage(r, 300) } else { model_total.len() };
        let p = gens::perm(r, k);
        let row = rb(&p);
        let same = k == model_total.len();
        let op = r.below(6);
        trace.push(op);
        match op {
            0 => {
                ensure!(acc.accumulate(&row).is_ok() == same, "step {}: accumulate disagrees about stages", step);
                if same {
                    model_total = model::mul(&model_total, &p);
                }
            }
            1 => {
                ensure!(acc.pre_accumulate(&row).is_ok() == same, "step {}: pre_accumulate disagrees about stages", step);
                if same {
                    model_total = model::mul(&p, &model_total);
                }
            }
            2 => {
                acc.set(&row);
                model_total = p;
            }
            3 if same => {
                acc *= &row;
                model_total = model::mul(&model_total, &p);
            }
            4 if same => {
                acc *= row.as_row();
                model_total = model::mul(&model_total, &p);
            }
            _ => {
                let acc2 = acc.clone();
                is_row_buf(&acc2.into_total(), &model_total, "into_total of a clone")?;
            }
        }
        is_row(acc.total(), &model_total, &format!("accumulator after step {} (op {})", step, op))?;
    }
    let (l, t) = (trace.clone(), acc.total().to_string());
    c.log(|| format!("ops {:?} -> {}", l, t));
    is_row_buf(&acc.into_total(), &model_total, "into_total")?;
    c.count("accumulator histories");
    c.sig(hash_usizes(&trace));
    Ok(())
}

/* ===== C04: INVERSES, POWERS, EQUATIONS ===== */

pub const C04: &[Probe] = &[
    exhaustive("all-rows-up-to-6", 873, 873, |c| {
        let mut i = c.idx;
        for n in 1..=6 {
            let f = model::factorial(n) as u64;
            if i < f {
                let p = model::nth_perm(n, i);
                return inverse_powers(c, &p);
            }
            i -= f;
        }
        Ok(())
    }),
    exhaustive("all-pairs-up-to-4", 617, 617, |c| {
        let mut i = c.idx;
        for n in 1..=4 {
            let f = model::factorial(n) as u64;
            if i < f * f {
                let (a, b) = (model::nth_perm(n, i % f), model::nth_perm(n, i / f));
                return equations(c, &a, &b);
            }
            i -= f * f;
        }
        Ok(())
    }),
    random("inverse-powers", 40_000, |c| {
        let n = gens::stage(&mut c.rng, 300);
        let p = gens::perm(&mut c.rng, n);
        inverse_powers(c, &p)
    }),
    random("equations", 60_000, |c| {
        let n = gens::stage(&mut c.rng, 300);
        let (a, b) = (gens::perm(&mut c.rng, n), gens::perm(&mut c.rng, n));
        equations(c, &a, &b)
    }),
    random("powers-around-order", 4_000, powers_around_order),
    random("big-powers", 5_000, |c| {
        let n = gens::stage(&mut c.rng, 70);
        let p = gens::perm(&mut c.rng, n);
        let e = match c.rng.below(4) {
            0 => c.rng.range(1_000, 100_000),
            1 => (c.rng.u64() >> c.rng.below(64)) as usize,
            2 => gens::two_to(c.rng.below(64)),
            _ => *c.rng.pick(&[usize::MAX, usize::MAX - 1, isize::MAX as usize, isize::MAX as usize + 1, u32::MAX as usize, (u32::MAX as usize).wrapping_add(1)]),
        };
        c.log(|| format!("{} to the power {}", show(&p), e));
        is_row_buf(&rb(&p).pow_u(e), &model::pow(&p, e as i128), &format!("pow_u({})", e))?;
        // (as a signed number, it may be negative)
        let i = e as isize;
        is_row_buf(&rb(&p).pow_i(i), &model::pow(&p, i as i128), &format!("pow_i({})", i))?;
        let i = i.wrapping_neg();
        is_row_buf(&rb(&p).pow_i(i), &model::pow(&p, i as i128), &format!("pow_i({})", i))?;
        c.count("big powers");
        c.sig(hash_usizes(&p) ^ e as u64);
        Ok(())
    }),
];

/// Powers around multiples of the order, of rows whose order is anything up to (and beyond) the largest number
fn powers_around_order(c: &mut Case) -> R {
    let p = gens::perm_of_cycles(&mut c.rng, 700);
    let order = model::order(&p);
    c.log(|| format!("{} (order {})", show(&p), order));
    let r = rb(&p);
    for _ in 0..4 {
        // a multiple of the order, or of a part of it, give or take a bit
        let mut e = order;
        if c.rng.chance(1, 3) {
            e /= *c.rng.pick(&[2u128, 3, 5, 7, 4, 6]);
        }
        if c.rng.bool() {
            e = e.wrapping_mul(c.rng.range(1, 100) as u128);
        }
        if e > usize::MAX as u128 {
            e = c.rng.u64() as u128;
        }
        e = (e + c.rng.below(4) as u128).saturating_sub(c.rng.below(3) as u128);
        let e = e.min(usize::MAX as u128) as usize;
        is_row_buf(&r.pow_u(e), &model::pow(&p, e as i128), &format!("pow_u({})", e))?;
        let i = e as isize;
        is_row_buf(&r.pow_i(i), &model::pow(&p, i as i128), &format!("pow_i({})", i))?;
        let i = i.wrapping_neg();
        is_row_buf(&r.pow_i(i), &model::pow(&p, i as i128), &format!("pow_i({})", i))?;
        c.count("powers around the order");
    }
    if order > u32::MAX as u128 {
        c.count("rows whose order is beyond 32 bits");
    }
    if order > u64::MAX as u128 {
        c.count("rows whose order is beyond 64 bits");
    }
    c.sig(hash_usizes(&p));
    Ok(())
}

fn inverse_powers(c: &mut Case, p: &[usize]) -> R {
    c.log(|| format!("row {}", show(p)));
    let n = p.len();
    let e = model::inv(p);
    let r = rb(p);
    is_row_buf(&r.inv(), &e, "inv")?;
    is_row_buf(&!&r, &e, "!&RowBuf")?;
    is_row_buf(&!r.as_row(), &e, "!&Row")?;
    let mut out = rb(&gens::perm(&mut c.rng, n));
    r.inv_into(&mut out).map_err(|e| format!("inv_into failed: {}", e))?;
    is_row_buf(&out, &e, "inv_into")?;
    for m in [n, n + 1, n.max(2) - 1, gens::stage(&mut c.rng, 300)] {
        let mut out = rb(&gens::perm(&mut c.rng, m));
        r.inv_into_buf(&mut out);
        is_row_buf(&out, &e, &format!("inv_into_buf from stage {}", m))?;
    }
    is_row_buf(&(&r * &r.inv()), &model::id(n), "x * !x")?;
    is_row_buf(&(&r.inv() * &r), &model::id(n), "!x * x")?;
    is_row_buf(&r.inv().inv(), p, "!!x")?;
    let order = model::order(p);
    let mut exps = vec![0i64, 1, 2, 3, -1, -2];
    for _ in 0..3 {
        exps.push(c.rng.below(80) as i64 - 40);
    }
    if order < 500 {
        exps.extend([order as i64, order as i64 + 1, -(order as i64), order as i64 - 1]);
    }
    for x in exps {
        let e = model::pow(p, x as i128);
        is_row_buf(&r.pow_i(x as isize), &e, &format!("pow_i({})", x))?;
        if x >= 0 {
            is_row_buf(&r.pow_u(x as usize), &e, &format!("pow_u({})", x))?;
        }
        c.count("powers");
    }
    is_row_buf(&r, p, "input after inverting")?;
    c.count("inverses");
    c.sig(hash_usizes(p));
    Ok(())
}

fn equations(c: &mut Case, a: &[usize], b: &[usize]) -> R {
    c.log(|| format!("a = {}, b = {}", show(a), show(b)));
    let (ra, rbb) = (rb(a), rb(b));
    let x = Row::solve_ax_equals_b(&ra, &rbb).map_err(|e| format!("solve_ax_equals_b failed: {}", e))?;
    eq!(model::mul(a, &ints(&x)), b.to_vec(), "a * solve_ax_equals_b(a, b)");
    is_row_buf(&x, &model::mul(&model::inv(a), b), "solve_ax_equals_b")?;
    let x = Row::solve_xa_equals_b(&ra, &rbb).map_err(|e| format!("solve_xa_equals_b failed: {}", e))?;
    eq!(model::mul(&ints(&x), a), b.to_vec(), "solve_xa_equals_b(a, b) * a");
    let x = ra.tranposition_to(&rbb).map_err(|e| format!("tranposition_to failed: {}", e))?;
    eq!(model::mul(&ints(&x), a), b.to_vec(), "tranposition_to(a, b) * a");
    let x = unsafe { ra.tranposition_to_unchecked(&rbb) };
    eq!(model::mul(&ints(&x), a), b.to_vec(), "tranposition_to_unchecked(a, b) * a");
    // (ab)^-1 = b^-1 a^-1
    is_row_buf(&(&ra * &rbb).inv(), &ints(&(&rbb.inv() * &ra.inv())), "!(ab) against !b * !a")?;
    c.count("equations");
    c.sig(mix(hash_usizes(a)) ^ hash_usizes(b));
    Ok(())
}

/* ===== C05: QUERIES ===== */

pub const C05: &[Probe] = &[
    exhaustive("all-rows-up-to-7", 5_913, 5_913, |c| {
        let mut i = c.idx;
        for n in 1..=7 {
            let f = model::factorial(n) as u64;
            if i < f {
                let p = model::nth_perm(n, i);
                return queries(c, &p);
            }
            i -= f;
        }
        Ok(())
    }),
    random("random-rows", 60_000, |c| {
        let n = gens::stage(&mut c.rng, 300);
        let p = gens::perm(&mut c.rng, n);
        queries(c, &p)
    }),
    exhaustive("named-rows", 300, 300, |c| {
        let n = c.idx as usize + 1;
        c.log(|| format!("stage {}", n));
        let s = st(n);
        is_row_buf(&RowBuf::rounds(s), &model::id(n), "rounds")?;
        is_row_buf(&RowBuf::backrounds(s), &(0..n).rev().collect::<Vec<_>>(), "backrounds")?;
        let queens: Vec<usize> = (0..n).filter(|b| b % 2 == 0).chain((0..n).filter(|b| b % 2 == 1)).collect();
        is_row_buf(&RowBuf::queens(s), &queens, "queens")?;
        eq!(s.tenor().index(), n - 1, "tenor of stage {}", n);
        eq!(Bell::tenor(s).index(), n - 1, "Bell::tenor of stage {}", n);
        eq!(s.bells().map(|b| b.index()).collect::<Vec<_>>(), model::id(n), "bells of stage {}", n);
        eq!(s.is_even(), n % 2 == 0, "is_even of stage {}", n);
        eq!(s.num_bells(), n, "num_bells of stage {}", n);
        eq!(s.as_usize(), n, "as_usize of stage {}", n);
        c.count("stages");
        c.sig(n as u64);
        Ok(())
    }),
    exhaustive("fast-hash-is-perfect", 9, 9, |c| {
        let n = c.idx as usize + 1;
        if n == 9 && !c.thorough {
            return Ok(());
        }
        c.log(|| format!("all rows of stage {}", n));
        let mut seen: HashMap<usize, Vec<usize>> = HashMap::new();
        for p in model::all_perms(n) {
            let h = rb(&p).fast_hash();
            if let Some(q) = seen.insert(h, p.clone()) {
                return Err(format!("fast_hash({}) == fast_hash({}) == {}", show(&p), show(&q), h));
            }
            c.count("hashed rows");
        }
        c.sig(n as u64);
        Ok(())
    }),
    random("fast-hash-collisions", 400, |c| {
        // Structured families of rows of one stage, where collisions would be likely
        let n = c.rng.range(7, HASH_IS_PERFECT);
        let base = gens::perm(&mut c.rng, n);
        let mut rows: HashSet<Vec<usize>> = HashSet::new();
        for _ in 0..1500 {
            let mut p = base.clone();
            for _ in 0..c.rng.range(0, 4) {
                let (i, j) = (c.rng.below(n), c.rng.below(n));
                p.swap(i, j);
            }
            if c.rng.chance(1, 10) {
                p = gens::perm(&mut c.rng, n);
            }
            rows.insert(p);
        }
        c.log(|| format!("{} rows near {} on {} bells", rows.len(), show(&base), n));
        let mut seen: HashMap<usize, Vec<usize>> = HashMap::new();
        for p in rows {
            let h = rb(&p).fast_hash();
            if let Some(q) = seen.insert(h, p.clone()) {
                return Err(format!("fast_hash({}) == fast_hash({}) == {}", show(&p), show(&q), h));
            }
            c.count("hashed rows");
        }
        c.sig(hash_usizes(&base));
        Ok(())
    }),
];

fn queries(c: &mut Case, p: &[usize]) -> R {
    c.log(|| format!("row {}", show(p)));
    let n = p.len();
    let r = rb(p);
    let rounds = model::id(n);
    eq!(r.stage().num_bells(), n, "stage");
    eq!(r.is_rounds(), p == &rounds[..], "is_rounds");
    eq!(r.is_backrounds(), p.iter().rev().eq(rounds.iter()), "is_backrounds");
    let eff = (1..=n).find(|&k| (k..n).all(|i| p[i] == i)).unwrap();
    eq!(r.effective_stage().num_bells(), eff, "effective_stage");
    let fixed: BTreeSet<usize> = (0..n).filter(|&i| p[i] == i).collect();
    let got: Vec<usize> = r.fixed_bells().map(|b| b.index()).collect();
    eq!(got.len(), fixed.len(), "number of fixed bells");
    eq!(got.into_iter().collect::<BTreeSet<_>>(), fixed, "fixed_bells");
    for b in 0..n {
        eq!(r.place_of(bell(b)), p.iter().position(|x| *x == b), "place_of bell index {}", b);
        eq!(r[b].index(), p[b], "row[{}]", b);
        eq!(unsafe { r.get_bell_unchecked(b) }.index(), p[b], "get_bell_unchecked({})", b);
    }
    for b in [n, n + 1, usize::MAX] {
        eq!(r.place_of(bell(b)), None, "place_of bell index {}", b);
        ensure!(guard(|| r[b]).is_err(), "row[{}] of a row of {} bells didn't panic", b, n);
    }
    eq!(r.bell_iter().map(|b| b.index()).collect::<Vec<_>>(), p.to_vec(), "bell_iter");
    eq!(r.bell_iter().rev().map(|b| b.index()).collect::<Vec<_>>(), p.iter().rev().copied().collect::<Vec<_>>(), "reversed bell_iter");
    eq!((&r).into_iter().map(|b| b.index()).collect::<Vec<_>>(), p.to_vec(), "iterating over &RowBuf");
    eq!(r.as_row().into_iter().map(|b| b.index()).collect::<Vec<_>>(), p.to_vec(), "iterating over &Row");
    eq!(r.slice().len(), n, "slice");
    // Swaps
    let (i, j) = (c.rng.below(n), c.rng.below(n));
    let mut s = r.clone();
    s.swap(i, j);
    let mut q = p.to_vec();
    q.swap(i, j);
    is_row_buf(&s, &q, "swap")?;
    let mut s = r.clone();
    ensure!(guard(|| s.swap(i, n)).is_err(), "swap({}, {}) on {} bells didn't panic", i, n, n);
    is_row_buf(&s, p, "row after a failed swap")?;
    // Copies
    is_row_buf(&r.clone(), p, "clone")?;
    is_row_buf(&r.as_row().to_owned(), p, "to_owned")?;
    is_row(&r.to_rc(), p, "to_rc")?;
    is_row(&r.to_arc(), p, "to_arc")?;
    let m = gens::stage(&mut c.rng, 300);
    let mut o = rb(&gens::perm(&mut c.rng, m));
    r.copy_into(&mut o);
    is_row_buf(&o, p, "copy_into")?;
    let mut o = rb(&gens::perm(&mut c.rng, m));
    o.overwrite_from(&r);
    is_row_buf(&o, p, "overwrite_from")?;
    eq!(r.clone().into_bell_vec().iter().map(|b| b.index()).collect::<Vec<_>>(), p.to_vec(), "into_bell_vec");
    eq!(r.fast_hash(), r.clone().fast_hash(), "fast_hash of equal rows");
    let other = gens::perm(&mut c.rng, n);
    if n <= HASH_IS_PERFECT {
        eq!(r.fast_hash() == rb(&other).fast_hash(), p == &other[..], "fast_hash({}) == fast_hash({})", show(p), show(&other));
    }
    c.count("rows queried");
    c.sig(hash_usizes(p));
    Ok(())
}

/* ===== C06: CLOSURES, GROUPS ===== */

/// Up to how many bells `fast_hash` is documented to have no collisions
const HASH_IS_PERFECT: usize = if usize::BITS == 32 { 9 } else { 16 };

pub const C06: &[Probe] = &[
    exhaustive("closures-of-all-rows-up-to-6", 873, 873, |c| {
        let mut i = c.idx;
        for n in 1..=6 {
            let f = model::factorial(n) as u64;
            if i < f {
                let p = model::nth_perm(n, i);
                return closures(c, &p);
            }
            i -= f;
        }
        Ok(())
    }),
    random("closures", 10_000, |c| {
        let n = gens::stage(&mut c.rng, 300);
        let p = gens::perm_small_order(&mut c.rng, n, 1000);
        closures(c, &p)
    }),
    random("least-group", 1_500, least_group),
    random("is-group", 6_000, is_group),
    exhaustive("is-group-all-subsets-of-s3", 64, 64, |c| {
        // Every subset of the rows on 3 bells
        let all = model::all_perms(3);
        let rows: Vec<Vec<usize>> = (0..6).filter(|i| c.idx >> i & 1 == 1).map(|i| all[i].clone()).collect();
        check_is_group(c, &rows)
    }),
    random("cartesian-product", 15_000, cartesian),
];

fn closures(c: &mut Case, p: &[usize]) -> R {
    c.log(|| format!("closure of {}", show(p)));
    let o = model::order(p) as usize;
    let r = rb(p);
    let cl = r.closure();
    eq!(cl.len(), o, "length of the closure of {}", show(p));
    for (i, x) in cl.iter().enumerate() {
        is_row_buf(x, &model::pow(p, i as i128 + 1), &format!("row {} of the closure", i))?;
    }
    let cl = r.closure_from_rounds();
    eq!(cl.len(), o, "length of the closure from rounds of {}", show(p));
    for (i, x) in cl.iter().enumerate() {
        is_row_buf(x, &model::pow(p, i as i128), &format!("row {} of the closure from rounds", i))?;
    }
    ensure!(Row::is_group(cl.iter().map(|r| r.as_row())).unwrap(), "the closure of {} isn't a group", show(p));
    c.count("closures");
    c.count_n("rows of closures", o as u64);
    c.sig(hash_usizes(p));
    Ok(())
}

/// The group generated by some rows (by saturating with products on both sides)
fn model_group(gens: &[Vec<usize>], max: usize) -> Option<BTreeSet<Vec<usize>>> {
    let mut set = BTreeSet::new();
    let mut todo = vec![model::id(gens[0].len())];
    while let Some(x) = todo.pop() {
        if set.insert(x.clone()) {
            if set.len() > max {
                return None;
            }
            for g in gens {
                todo.push(model::mul(&x, g));
            }
        }
    }
    Some(set)
}

fn small_gens(r: &mut Rng, max: usize) -> (Vec<Vec<usize>>, BTreeSet<Vec<usize>>) {
    loop {
        let n = if r.chance(1, 2) { r.range(1, 5) } else { gens::stage(r, 140) };
        let k = r.range(1, 3);
        let mut g: Vec<Vec<usize>> = (0..k).map(|_| gens::perm_small_order(r, n, 30)).collect();
        if r.chance(1, 4) {
            // Repeat a generator
            let x = r.pick(&g).clone();
            g.push(x);
        }
        if let Some(s) = model_group(&g, max) {
            return (g, s);
        }
    }
}

fn least_group(c: &mut Case) -> R {
    let (g, s) = small_gens(&mut c.rng, 800);
    c.log(|| format!("generators {:?}, group of {}", g.iter().map(|r| show(r)).collect::<Vec<_>>(), s.len()));
    let rows: Vec<RowBuf> = g.iter().map(|r| rb(r)).collect();
    let got = Row::least_group_containing(gens::vague(&mut c.rng.clone(), rows.iter().map(|r| r.as_row()))).map_err(|e| format!("least_group_containing failed: {}", e))?;
    let got: BTreeSet<Vec<usize>> = got.iter().map(|r| ints(r)).collect();
    eq!(got.len(), s.len(), "size of the least group containing {:?}", g.iter().map(|r| show(r)).collect::<Vec<_>>());
    ensure!(got == s, "the least group containing {:?} is wrong", g.iter().map(|r| show(r)).collect::<Vec<_>>());
    if s.len() <= 200 {
        let rows: Vec<RowBuf> = s.iter().map(|r| rb(r)).collect();
        ensure!(Row::is_group(rows.iter().map(|r| r.as_row())).unwrap(), "a least group isn't a group");
    }
    // Mixed stages
    let n = g[0].len();
    let mut rows = rows;
    let at = c.rng.below(rows.len() + 1);
    rows.insert(at, rb(&gens::perm(&mut c.rng, n + 1)));
    ensure!(
        Row::least_group_containing(rows.iter().map(|r| r.as_row())).is_err(),
        "least_group_containing accepted rows of stages {} and {}",
        n,
        n + 1
    );
    c.count("groups generated");
    c.count_n("group elements", s.len() as u64);
    c.sig(hash_usizes(&g.concat()));
    Ok(())
}

fn is_group(c: &mut Case) -> R {
    let (_, s) = small_gens(&mut c.rng, 60);
    let mut rows: Vec<Vec<usize>> = s.into_iter().collect();
    let r = &mut c.rng;
    match r.below(9) {
        5 => {
            // The union of two groups is closed under inverses and powers, but rarely a group
            let n = rows[0].len();
            for _ in 0..r.range(1, 2) {
                let g = gens::perm_small_order(r, n, 30);
                if let Some(s) = model_group(&[g], 40) {
                    rows.extend(s);
                }
            }
            let set: BTreeSet<Vec<usize>> = rows.into_iter().collect();
            rows = set.into_iter().collect();
        }
        6 => {
            // The elements whose order divides `k`, or a symmetric set without an inverse pair
            let k = r.range(2, 6);
            let n = rows[0].len();
            if r.bool() {
                rows.retain(|x| (1..k).fold(x.clone(), |p, _| model::mul(&p, x)) == (0..n).collect::<Vec<_>>());
            } else {
                let x = r.pick(&rows).clone();
                let y = model::inv(&x);
                if rows.iter().any(|z| *z != x && *z != y) {
                    rows.retain(|z| *z != x && *z != y);
                }
            }
        }
        7 => {
            // A group, with a coset of it
            let n = rows[0].len();
            let p = if r.bool() { gens::perm(r, n) } else { gens::perm_small_order(r, n, 2) };
            let coset: Vec<Vec<usize>> = rows.iter().map(|x| if n % 2 == 0 { model::mul(x, &p) } else { model::mul(&p, x) }).collect();
            rows.extend(coset);
        }
        8 => {
            // The first rows of a group
            rows.sort();
            let keep = r.range(1, rows.len());
            rows.truncate(keep);
        }
        0 => {
            let i = r.below(rows.len());
            rows.remove(i);
        }
        1 => {
            // a coset
            let n = rows[0].len();
            let p = gens::perm(r, n);
            rows.iter_mut().for_each(|x| *x = model::mul(&p, x));
        }
        2 => {
            let n = rows[0].len();
            rows.push(gens::perm(r, n));
        }
        3 => {
            // repeat a few
            for _ in 0..3 {
                let x = r.pick(&rows).clone();
                rows.push(x);
            }
        }
        _ => {}
    }
    r.shuffle(&mut rows);
    check_is_group(c, &rows)
}

fn check_is_group(c: &mut Case, rows: &[Vec<usize>]) -> R {
    c.log(|| format!("is {:?} a group", rows.iter().map(|r| show(r)).collect::<Vec<_>>()));
    let set: BTreeSet<&Vec<usize>> = rows.iter().collect();
    // A finite non-empty set of permutations is a group iff it's closed under multiplication
    let expected = !set.is_empty() && set.iter().all(|a| set.iter().all(|b| set.contains(&model::mul(a, b))));
    let bufs: Vec<RowBuf> = rows.iter().map(|r| rb(r)).collect();
    let got = Row::is_group(gens::vague(&mut c.rng, bufs.iter().map(|r| r.as_row()))).map_err(|e| format!("is_group failed: {}", e))?;
    eq!(got, expected, "is_group({:?})", rows.iter().map(|r| show(r)).collect::<Vec<_>>());
    c.count(if expected { "groups" } else { "non-groups" });
    // Mixed stages are an error
    if let Some(r) = rows.first() {
        let mut bufs = bufs;
        let odd_one = rb(&gens::perm(&mut c.rng, r.len() + 1));
        let at = c.rng.below(bufs.len() + 1);
        bufs.insert(at, odd_one);
        ensure!(Row::is_group(bufs.iter().map(|r| r.as_row())).is_err(), "is_group accepted rows of different stages");
    }
    c.sig(hash_usizes(&rows.concat()));
    Ok(())
}

fn cartesian(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = gens::stage(r, 140);
    let k = r.range(0, 5);
    let mut sets: Vec<Vec<Vec<usize>>> = vec![];
    for _ in 0..k {
        let size = if r.chance(1, 25) { 0 } else { r.range(1, if k > 3 { 3 } else { 5 }) };
        let mut set = vec![];
        for _ in 0..size {
            let m = if r.chance(1, 60) { n + 1 } else { n };
            set.push(gens::perm(r, m));
        }
        sets.push(set);
    }
    let stages: HashSet<usize> = sets.iter().flatten().map(|p| p.len()).collect();
    let mixed = stages.len() > 1;
    let empty = sets.iter().any(|s| s.is_empty());
    let l = sets.clone();
    c.log(|| format!("{:?}", l.iter().map(|s| s.iter().map(|r| show(r)).collect::<Vec<_>>()).collect::<Vec<_>>()));
    let bufs: Vec<Vec<RowBuf>> = sets.iter().map(|s| s.iter().map(|r| rb(r)).collect()).collect();
    let got = Row::multi_cartesian_product(gens::vague(&mut c.rng.clone(), bufs.iter().map(|s| gens::vague(&mut c.rng.clone(), s.iter()))));
    if mixed {
        c.count("mismatched sets");
        // If one of the sets is empty, then the product is legitimately empty
        ensure!(
            got.is_err() || (empty && got.as_ref().unwrap().is_empty()),
            "multi_cartesian_product accepted rows of different stages"
        );
        return Ok(());
    }
    let got = got.map_err(|e| format!("multi_cartesian_product failed: {}", e))?;
    if k == 0 {
        return Ok(());
    }
    let n = stages.into_iter().next().unwrap_or(n);
    let mut expected = vec![model::id(n)];
    for s in &sets {
        let mut next = vec![];
        for a in &expected {
            for b in s {
                next.push(model::mul(a, b));
            }
        }
        expected = next;
    }
    let mut got: Vec<Vec<usize>> = got.iter().map(|r| ints(r)).collect();
    got.sort();
    expected.sort();
    eq!(got.len(), expected.len(), "number of products");
    ensure!(got == expected, "the products are wrong: got {:?}, expected {:?}", got, expected);
    c.count("cartesian products");
    c.count_n("products", expected.len() as u64);
    c.sig(hash_usizes(&sets.concat().concat()) ^ k as u64);
    Ok(())
}

/* ===== C23: PARITY ===== */

pub const C23: &[Probe] = &[
    exhaustive("all-rows-up-to-8", 46_233, 46_233, |c| {
        let mut i = c.idx;
        for n in 1..=8 {
            let f = model::factorial(n) as u64;
            if i < f {
                let p = model::nth_perm(n, i);
                return parity_of(c, &p);
            }
            i -= f;
        }
        Ok(())
    }),
    random("random-rows", 40_000, |c| {
        let n = gens::stage(&mut c.rng, 300);
        let p = gens::perm(&mut c.rng, n);
        parity_of(c, &p)
    }),
    random("homomorphism", 40_000, |c| {
        let n = gens::stage(&mut c.rng, 300);
        let (a, b) = (gens::perm(&mut c.rng, n), gens::perm(&mut c.rng, n));
        c.log(|| format!("parity of {} * {}", show(&a), show(&b)));
        let (ra, rbb) = (rb(&a), rb(&b));
        let par = |r: &RowBuf| r.clone().parity();
        let prod = &ra * &rbb;
        eq!(par(&prod), par(&ra) * par(&rbb), "parity of a product");
        eq!(par(&ra.inv()), par(&ra), "parity of an inverse");
        let e = c.rng.below(10);
        let mut expected = Parity::Even;
        for _ in 0..e {
            expected = expected * par(&ra);
        }
        eq!(par(&ra.pow_u(e)), expected, "parity of a power of {}", e);
        if n > 1 {
            let (i, j) = (c.rng.below(n), c.rng.below(n));
            let mut s = ra.clone();
            s.swap(i, j);
            eq!(par(&s) == par(&ra), i == j, "parity after swapping {} and {}", i, j);
        }
        c.count("products");
        c.sig(mix(hash_usizes(&a)) ^ hash_usizes(&b));
        Ok(())
    }),
    random("parity-values", 2_000, |c| {
        let k = match c.rng.below(4) {
            0 => c.rng.below(10),
            1 => usize::MAX - c.rng.below(10),
            _ => c.rng.u64() as usize,
        };
        c.log(|| format!("number {}", k));
        let odd = k & 1 == 1;
        let e = if odd { Parity::Odd } else { Parity::Even };
        eq!(Parity::from_number(k), e, "from_number({})", k);
        eq!(Parity::from_is_odd(odd), e, "from_is_odd({})", odd);
        eq!(e.zero_or_one(), odd as u8, "zero_or_one");
        eq!(e.plus_or_minus(), if odd { '-' } else { '+' }, "plus_or_minus");
        eq!(Parity::Even * e, e, "Even * {:?}", e);
        eq!(e * Parity::Even, e, "{:?} * Even", e);
        eq!(e * e, Parity::Even, "{:?} squared", e);
        c.count("numbers");
        c.sig(odd as u64);
        Ok(())
    }),
];

fn parity_of(c: &mut Case, p: &[usize]) -> R {
    c.log(|| format!("parity of {}", show(p)));
    let mut r = rb(p);
    let e = Parity::from_is_odd(model::is_odd(p));
    let got = r.parity();
    eq!(got, e, "parity of {}", show(p));
    ensure!(model::is_perm(&ints(&r)), "parity left an invalid row: {:?}", ints(&r));
    // Through an unsized row
    let mut r = rb(p);
    eq!(r.as_mut_row().parity(), e, "parity of the unsized row {}", show(p));
    eq!(matches!(got, Parity::Odd), got.zero_or_one() == 1, "zero_or_one");
    c.count(if e == Parity::Odd { "odd rows" } else { "even rows" });
    c.sig(hash_usizes(p));
    Ok(())
}

/* ===== C22: EQUALITY, ORDER, HASHING ===== */

pub const C22: &[Probe] = &[
    exhaustive("all-pairs-up-to-4", 1089, 1089, |c| {
        // All pairs from the 33 rows of up to 4 bells
        let all: Vec<Vec<usize>> = (1..=4).flat_map(model::all_perms).collect();
        let (a, b) = (&all[c.idx as usize % 33], &all[c.idx as usize / 33]);
        row_pair(c, a, b)
    }),
    random("row-pairs", 60_000, |c| {
        let n = gens::stage(&mut c.rng, 300);
        let a = gens::perm(&mut c.rng, n);
        let b = near(&mut c.rng, &a);
        row_pair(c, &a, &b)
    }),
    random("row-order", 20_000, |c| {
        let n = gens::stage(&mut c.rng, 300);
        let a = gens::perm(&mut c.rng, n);
        let (b, d) = (near(&mut c.rng, &a), near(&mut c.rng, &a));
        c.log(|| format!("{}, {}, {}", show(&a), show(&b), show(&d)));
        let rows = [rb(&a), rb(&b), rb(&d)];
        // Transitivity over all orders of the three
        for i in 0..3 {
            for j in 0..3 {
                for k in 0..3 {
                    if rows[i] <= rows[j] && rows[j] <= rows[k] {
                        ensure!(rows[i] <= rows[k], "order of rows isn't transitive: {:?} {:?} {:?}", rows[i], rows[j], rows[k]);
                    }
                }
            }
        }
        c.count("triples");
        c.sig(mix(mix(hash_usizes(&a)) ^ hash_usizes(&b)) ^ hash_usizes(&d));
        Ok(())
    }),
    random("maps-keyed-by-rows", 1_500, row_maps),
    random("bells-and-stages", 30_000, |c| {
        let pick = |r: &mut Rng| if r.chance(1, 3) { (r.u64() >> r.below(60)) as usize } else { r.below(40) };
        let (a, b) = (pick(&mut c.rng), pick(&mut c.rng));
        c.log(|| format!("bells of index {} and {}", a, b));
        let (x, y) = (bell(a), bell(b));
        eq!(x == y, a == b, "bells {} == {}", a, b);
        eq!(x.cmp(&y), a.cmp(&b), "order of bells {} and {}", a, b);
        eq!(x.partial_cmp(&y), Some(a.cmp(&b)), "partial order of bells {} and {}", a, b);
        if a == b {
            eq!(hash(&x), hash(&y), "hashes of equal bells");
        }
        eq!(Bell::TREBLE.index(), 0, "the treble");
        let (a, b) = (a.max(1), b.max(1));
        let (x, y) = (st(a), st(b));
        eq!(x == y, a == b, "stages {} == {}", a, b);
        eq!(x.cmp(&y), a.cmp(&b), "order of stages {} and {}", a, b);
        if a == b {
            eq!(hash(&x), hash(&y), "hashes of equal stages");
        }
        c.count("pairs of bells and stages");
        c.sig(mix(a as u64) ^ b as u64);
        Ok(())
    }),
    random("vecs-and-blocks", 20_000, vec_pairs),
    random("masks-and-regexes", 30_000, mask_pairs),
    random("regexes", 30_000, regex_pairs),
    random("place-notation", 30_000, pn_pairs),
    random("place-notation-blocks", 30_000, pn_block_pairs),
];

fn hash<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// A row which is the same as, or similar to another
fn near(r: &mut Rng, a: &[usize]) -> Vec<usize> {
    let mut b = a.to_vec();
    match r.below(6) {
        0 => {}
        1 => {
            let (i, j) = (r.below(a.len()), r.below(a.len()));
            b.swap(i, j);
        }
        2 => b.push(a.len()),
        3 if a.len() > 1 => {
            // Drop the tenor
            b.retain(|x| *x != a.len() - 1);
        }
        4 => {
            let k = a.len();
            if k > 1 {
                b.swap(k - 2, k - 1);
            }
        }
        _ => b = gens::perm(r, a.len()),
    }
    b
}

fn row_pair(c: &mut Case, a: &[usize], b: &[usize]) -> R {
    c.log(|| format!("{} against {}", show(a), show(b)));
    let (x, y) = (rb(a), rb(b));
    let same = a == b;
    c.count(if same { "equal pairs" } else { "different pairs" });
    eq!(x == y, same, "RowBuf == RowBuf");
    eq!(x != y, !same, "RowBuf != RowBuf");
    eq!(x.as_row() == y.as_row(), same, "Row == Row");
    eq!(x == *y.as_row(), same, "RowBuf == Row");
    eq!(*x.as_row() == y, same, "Row == RowBuf");
    // Cloning, also into what is already there
    let mut z = y.clone();
    z.clone_from(&x);
    ensure!(z == x && x == z && x.clone() == x, "cloning {} over {} gave {}", show(a), show(b), z);
    eq!(hash(&z), hash(&x), "hash of a clone");
    eq!(x.as_row().to_owned() == y, same, "RowBuf == RowBuf after borrowing and owning");
    eq!(x.to_rc() == y.to_rc(), same, "Rc<Row> == Rc<Row>");
    eq!(x.to_arc() == y.to_arc(), same, "Arc<Row> == Arc<Row>");
    // Order
    let o = x.cmp(&y);
    eq!(o, a.cmp(b), "order of {} and {} (lexicographic)", show(a), show(b));
    eq!(o == std::cmp::Ordering::Equal, same, "rows compare equal");
    eq!(y.cmp(&x), o.reverse(), "reversed order");
    eq!(x.partial_cmp(&y), Some(o), "partial order");
    eq!(x.as_row().cmp(y.as_row()), o, "order of Rows");
    // Borrowing
    {
        let mut z = x.clone();
        let bz: &mut Row = std::borrow::BorrowMut::borrow_mut(&mut z);
        eq!(ints(bz), a.to_vec(), "a mutably borrowed row");
        if a.len() > 1 {
            bz.swap(0, a.len() - 1);
            let mut swapped = a.to_vec();
            swapped.swap(0, a.len() - 1);
            eq!(ints(&z), swapped, "a row which was changed through a borrow");
            ensure!(z != x, "{} is equal to {}", z, x);
        }
    }
    let bx: &Row = x.borrow();
    let by: &Row = y.borrow();
    eq!(bx == by, same, "equality of borrowed rows");
    eq!(bx.cmp(by), o, "order of borrowed rows");
    eq!(hash(bx), hash(&x), "hash of a borrowed row");
    eq!(hash(x.as_ref() as &Row), hash(&x), "hash of a row by as_ref");
    if same {
        eq!(hash(&x), hash(&y), "hashes of equal rows");
        eq!(x.fast_hash(), y.fast_hash(), "fast hashes of equal rows");
    }
    let _ = format!("{:?} {:?} {:?}", x, x.as_row(), DbgRow(&x));
    c.sig(mix(hash_usizes(a)) ^ hash_usizes(b));
    Ok(())
}

/// Maps keyed by owned rows, looked up through borrowed rows
fn row_maps(c: &mut Case) -> R {
    let r = &mut c.rng;
    let stages = [r.range(1, 5), r.range(1, 8), r.range(3, 4)];
    let mut hash_map: HashMap<RowBuf, usize> = HashMap::new();
    let mut tree: BTreeMap<RowBuf, usize> = BTreeMap::new();
    let mut model_map: BTreeMap<Vec<usize>, usize> = BTreeMap::new();
    let ops = r.range(5, 80);
    for i in 0..ops {
        let p = gens::perm(r, *r.clone().pick(&stages));
        let row = rb(&p);
        match r.below(4) {
            0 | 1 => {
                let e = model_map.insert(p.clone(), i);
                eq!(hash_map.insert(row.clone(), i), e, "HashMap::insert({})", show(&p));
                eq!(tree.insert(row, i), e, "BTreeMap::insert({})", show(&p));
            }
            2 => {
                let e = model_map.remove(&p);
                eq!(hash_map.remove(row.as_row()), e, "HashMap::remove({})", show(&p));
                eq!(tree.remove(row.as_row()), e, "BTreeMap::remove({})", show(&p));
            }
            _ => {
                let e = model_map.get(&p);
                let rc = row.to_rc();
                eq!(hash_map.get(&*rc), e, "HashMap::get({})", show(&p));
                eq!(tree.get(&*rc), e, "BTreeMap::get({})", show(&p));
            }
        }
    }
    eq!(hash_map.len(), model_map.len(), "size of the HashMap");
    eq!(tree.len(), model_map.len(), "size of the BTreeMap");
    let mut keys: Vec<&RowBuf> = hash_map.keys().collect();
    keys.sort();
    ensure!(keys.iter().copied().eq(tree.keys()), "sorted keys differ from the keys of a BTreeMap");
    c.log(|| format!("{} operations on maps, {} entries left", ops, model_map.len()));
    c.count("map histories");
    c.count_n("map operations", ops as u64);
    c.sig(hash_usizes(&model_map.keys().flatten().copied().collect::<Vec<_>>()));
    Ok(())
}

fn vec_pairs(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = gens::stage(r, 140);
    let rows: Vec<Vec<usize>> = (0..r.below(5)).map(|_| gens::perm(r, n)).collect();
    let mut other = rows.clone();
    let mut m = n;
    match r.below(5) {
        0 => {}
        1 if !other.is_empty() => {
            let i = r.below(other.len());
            other[i] = gens::perm(r, n);
        }
        2 => other.push(gens::perm(r, n)),
        3 => {
            other.pop();
        }
        _ if other.is_empty() => m = n + 1,
        _ => other.reverse(),
    }
    let l = (rows.clone(), other.clone());
    c.log(|| format!("{:?}", l));
    let same = rows == other && n == m;
    // Build one of them in another way, so that capacities etc. differ
    let x = gens::ssv(n, &rows);
    let mut y = SameStageVec::with_capacity(st(m), 40);
    for r in &other {
        y.push(&rb(r)).unwrap();
    }
    eq!(x == y, same, "equality of SameStageVecs {:?} and {:?}", x, y);
    eq!(y == x, same, "equality of SameStageVecs {:?} and {:?}", y, x);
    if same {
        eq!(hash(&x), hash(&y), "hashes of equal SameStageVecs");
    }
    ensure!(x == x.clone(), "a SameStageVec doesn't equal its clone");
    let mut z = y.clone();
    z.clone_from(&x);
    ensure!(z == x && x == z && hash(&z) == hash(&x), "cloning {:?} over {:?} gave {:?}", x, y, z);
    // Blocks, with their annotations
    if let (Some(a), Some(mut b)) = (
        AnnotBlock::with_annots_from_indices(x.clone(), |i| i as u32),
        AnnotBlock::with_annots_from_indices(y.clone(), |i| i as u32),
    ) {
        eq!(a == b, same, "equality of blocks");
        let mut z = b.clone();
        z.clone_from(&a);
        ensure!(z == a && a == z && a.clone() == a && hash(&z) == hash(&a), "cloning {:?} over {:?} gave {:?}", a, b, z);
        if same {
            eq!(hash(&a), hash(&b), "hashes of equal blocks");
        }
        if b.len() > 0 {
            let i = c.rng.below(b.len());
            *b.get_annot_mut(i).unwrap() = 1000;
            ensure!(a != b, "blocks with different annotations are equal");
        }
    }
    c.count(if same { "equal vecs" } else { "different vecs" });
    c.sig(mix(hash_usizes(&rows.concat())) ^ hash_usizes(&other.concat()));
    Ok(())
}

fn mask_pairs(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = if r.chance(1, 10) { r.range(10, 33) } else { r.range(1, 9) };
    let m: model::M = gens::perm(r, n).into_iter().map(|b| r.bool().then_some(b)).collect();
    let mut k = m.clone();
    match r.below(4) {
        0 => {}
        1 => {
            let i = r.below(n);
            k[i] = None;
        }
        2 => k.push(None),
        _ => k = gens::perm(r, n).into_iter().map(|b| r.bool().then_some(b)).collect(),
    }
    let txt = |m: &model::M| -> String { m.iter().map(|b| b.map_or("x".to_owned(), model::bell_name)).collect() };
    c.log(|| format!("masks {} and {}", txt(&m), txt(&k)));
    let build = |m: &model::M| {
        let mut x = Mask::empty(st(m.len()));
        for (p, b) in m.iter().enumerate() {
            if let Some(b) = b {
                x.set_bell(bell(*b), p).unwrap();
            }
        }
        x
    };
    let (x, y, z) = (Mask::parse(&txt(&m)), build(&k), build(&m));
    let same = m == k;
    eq!(x == y, same, "masks {} == {}", txt(&m), txt(&k));
    eq!(x == z, true, "masks {} parsed and built", txt(&m));
    eq!(hash(&x), hash(&z), "hashes of equal masks");
    if same {
        eq!(hash(&x), hash(&y), "hashes of equal masks");
    }
    let mut over = x.clone();
    over.clone_from(&y);
    ensure!(over == y && y == over && hash(&over) == hash(&y), "cloning {} over {} gave {}", y, x, over);
    let (p, q) = (Regex::from(x), Regex::from(y));
    let mut over = p.clone();
    over.clone_from(&q);
    ensure!(over == q && q == over && hash(&over) == hash(&q), "cloning {} over {} gave {}", q, p, over);
    eq!(p == q, same, "regexes of masks {} and {}", txt(&m), txt(&k));
    if same {
        eq!(hash(&p), hash(&q), "hashes of equal regexes");
    }
    c.count(if same { "equal masks" } else { "different masks" });
    c.sig(mix(crate::rng::hash_str(&txt(&m))) ^ crate::rng::hash_str(&txt(&k)));
    Ok(())
}

/// A list, and one which is the same as or similar to it: it differs in one item, in its length (at either end), in the
/// order of its items, or altogether
fn similar<T: Clone>(r: &mut Rng, list: &[T], mut item: impl FnMut(&mut Rng) -> T) -> Vec<T> {
    let mut v = list.to_vec();
    match r.below(9) {
        0 | 1 => {}
        2 if !v.is_empty() => {
            let i = r.below(v.len());
            v[i] = item(r);
        }
        3 => v.push(item(r)),
        4 => v.insert(0, item(r)),
        5 => {
            v.pop();
        }
        6 if !v.is_empty() => {
            v.remove(0);
        }
        7 => v.reverse(),
        _ => {
            let again = v.clone();
            v.extend(again);
        }
    }
    v
}

fn regex_pairs(c: &mut Case) -> R {
    let r = &mut c.rng;
    let a = elems(r, 33);
    let b = similar(r, &a, |r| [E::Any, E::Glob, E::B(r.below(12))][r.below(3)].clone());
    c.log(|| format!("regexes {} and {}", elems_text(&a), elems_text(&b)));
    // One is parsed, the other built
    let x = Regex::parse(&elems_text(&a));
    let y = Regex::from_elems(b.iter().map(to_elem));
    let z = Regex::from_elems(a.iter().map(to_elem));
    // They're normalised, so the order of `x` and `*` and repeated `*`s don't matter
    let same = model::regex_normal(&a) == model::regex_normal(&b);
    eq!(x == y, same, "regexes {} and {}", elems_text(&a), elems_text(&b));
    eq!(y == x, x == y, "symmetry of the equality of {} and {}", x, y);
    ensure!(x == z && hash(&x) == hash(&z), "regexes {} parsed and built are different: {} and {}", elems_text(&a), x, z);
    if x == y {
        eq!(hash(&x), hash(&y), "hashes of the equal regexes {} and {}", x, y);
    }
    c.count(if a == b { "equal regexes" } else { "different regexes" });
    c.sig(mix(crate::rng::hash_str(&elems_text(&a))) ^ crate::rng::hash_str(&elems_text(&b)));
    Ok(())
}

fn pn_block_pairs(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = r.range(2, 16);
    let len = if r.chance(1, 20) { r.range(10, 80) } else { r.range(1, 6) };
    let a: Vec<Vec<usize>> = (0..len).map(|_| gens::full_places(r, n)).collect();
    let mut b = similar(r, &a, |r| gens::full_places(r, n));
    if b.is_empty() {
        b = vec![gens::full_places(r, n)];
    }
    c.log(|| format!("blocks {:?} and {:?} on {:?} bells", a, b, n));
    let build = |v: &[Vec<usize>]| PnBlock::from_vec(v.iter().map(|p| gens::pn(p, n)).collect()).map_err(|e| format!("no block: {:?}", e));
    let text: String = a.iter().map(|p| if p.is_empty() { "x".to_owned() } else { show(p) }).collect::<Vec<_>>().join(".");
    let x = PnBlock::parse(&text, st(n)).map_err(|e| format!("{:?} doesn't parse: {:?}", text, e))?;
    let (y, z) = (build(&b)?, build(&a)?);
    let same = a == b;
    ensure!(x == z && z == x, "blocks {:?} parsed and built are different: {:?} and {:?}", a, x, z);
    eq!(hash(&x), hash(&z), "hashes of equal blocks of place notation");
    eq!(x == y, same, "blocks {:?} == {:?}", x, y);
    eq!(y == x, same, "blocks {:?} == {:?}", y, x);
    eq!(x != y, !same, "blocks {:?} != {:?}", x, y);
    if same {
        eq!(hash(&x), hash(&y), "hashes of equal blocks of place notation");
    }
    let mut over = x.clone();
    ensure!(over == x && hash(&over) == hash(&x), "a clone of {:?} is {:?}", x, over);
    over.clone_from(&y);
    ensure!(over == y && y == over && hash(&over) == hash(&y), "cloning {:?} over {:?} gave {:?}", y, x, over);
    c.count(if same { "equal blocks of place notation" } else { "different blocks of place notation" });
    c.sig(mix(hash_usizes(&a.concat())) ^ hash_usizes(&b.concat()) ^ n as u64);
    Ok(())
}

fn pn_pairs(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = r.range(2, 16);
    let a = gens::full_places(r, n);
    let b = if r.chance(1, 3) { a.clone() } else { gens::full_places(r, n) };
    c.log(|| format!("place notations {:?} and {:?} on {} bells", a, b, n));
    let (x, y) = (gens::pn(&a, n), gens::pn(&b, n));
    let same = a == b;
    eq!(x == y, same, "place notations {} == {}", x, y);
    let mut over = x.clone();
    over.clone_from(&y);
    ensure!(over == y && y == over && hash(&over) == hash(&y), "cloning {} over {} gave {}", y, x, over);
    if same {
        eq!(hash(&x), hash(&y), "hashes of equal place notations");
    }
    // The same change, written differently
    if n <= 33 && !a.is_empty() {
        let mut shuffled = a.clone();
        c.rng.shuffle(&mut shuffled);
        let z = PlaceNot::parse(&show(&shuffled), st(n)).map_err(|e| format!("{} doesn't parse: {}", show(&shuffled), e))?;
        eq!(x == z, true, "{} parsed from {}", x, show(&shuffled));
        eq!(hash(&x), hash(&z), "hashes of equal place notations");
        if a.len() > 1 && a[0] == 0 && a[1] % 2 == 1 {
            // The '1' is implicit
            let z = PlaceNot::parse(&show(&a[1..]), st(n)).map_err(|e| format!("{} doesn't parse: {}", show(&a[1..]), e))?;
            eq!(x == z, true, "{} parsed from {} without its implicit place", x, show(&a[1..]));
        }
    }
    let wider = gens::pn(&if n % 2 == 1 { a.clone() } else { a.iter().copied().chain([n]).collect() }, n + 1 + (n % 2));
    ensure!(wider != x, "place notations of different stages are equal: {} and {}", x, wider);
    let _: Option<(&Method, &PnBlock, Stage)> = None;
    c.count(if same { "equal place notations" } else { "different place notations" });
    c.sig(mix(hash_usizes(&a)) ^ hash_usizes(&b));
    Ok(())
}
