//! C08, C09: place notation

use bellframe::{
    method::LABEL_LEAD_END,
    place_not::{InvalidPnBlockError, ParseError, PnBlockParseError},
    AnnotBlock, Call, PlaceNot, PnBlock,
};

use crate::{
    ctx::{exhaustive, random, Case, Probe, R},
    ensure, eq,
    gens::{self, ints, rb, show, st},
    model::{self, BlockFault, PnFault},
    rng::{hash_str, hash_usizes, mix, Rng},
};

/* ===== C08: SINGLE PLACE NOTATIONS ===== */

pub const C08: &[Probe] = &[
    exhaustive("all-sets-of-places-up-to-10", 2_046, 2_046, |c| {
        let mut i = c.idx;
        let mut n = 1;
        while i >= 1 << n {
            i -= 1 << n;
            n += 1;
        }
        let places: Vec<usize> = (0..n).filter(|p| i >> p & 1 == 1).collect();
        check_places(c, &places, n)
    }),
    random("lists-of-places", 60_000, |c| {
        let r = &mut c.rng;
        let n = gens::stage(r, 130);
        let mut places = match r.below(3) {
            0 => gens::full_places(r, n),
            1 => gens::places(r, n),
            _ => (0..r.below(6)).map(|_| r.below(n + 2)).collect(),
        };
        match r.below(8) {
            0 => places.push(r.below(n + 3)),
            1 => {
                if let Some(&p) = places.first() {
                    places.push(p);
                }
            }
            2 if !places.is_empty() => {
                places.remove(r.below(places.len()));
            }
            3 => places.push(n),
            _ => {}
        }
        check_places(c, &places, n)
    }),
    random("strings", 60_000, pn_string),
    random("strings-at-several-stages", 15_000, pn_string_at_stages),
    random("crosses", 2_000, crosses),
    exhaustive("all-pairs-of-rows-up-to-4", 617, 617, |c| {
        let mut i = c.idx;
        for n in 1..=4 {
            let f = model::factorial(n) as u64;
            if i < f * f {
                return between(c, &model::nth_perm(n, i / f), &model::nth_perm(n, i % f));
            }
            i -= f * f;
        }
        Ok(())
    }),
    exhaustive("all-pairs-of-rows-of-5", 14_400, 14_400, |c| {
        let i = c.idx;
        between(c, &model::nth_perm(5, i / 120), &model::nth_perm(5, i % 120))
    }),
    random("pairs-of-rows", 60_000, |c| {
        let r = &mut c.rng;
        let n = gens::stage(r, 130);
        let a = gens::perm(r, n);
        let mut b = model::mul(&a, &model::pn_perm(&gens::full_places(r, n), n));
        match r.below(5) {
            0 => {
                let (i, j) = (r.below(n), r.below(n));
                b.swap(i, j);
            }
            1 if n > 1 => {
                let i = r.below(n - 1);
                b.swap(i, i + 1);
            }
            2 => {
                let m = gens::stage(r, 130);
                b = gens::perm(r, m)
            }
            _ => {}
        }
        between(c, &a, &b)
    }),
];

fn fault_is_listed(e: &ParseError, faults: &[PnFault], n: usize, what: &str) -> R {
    let (f, names): (PnFault, Vec<usize>) = match e {
        ParseError::NoPlacesGiven => (PnFault::None, vec![]),
        ParseError::OddStageCross(s) => {
            ensure!(s.num_bells() == n, "{}: {:?} names the wrong stage", what, e);
            (PnFault::OddCross, vec![])
        }
        ParseError::DuplicatePlace(p) => (PnFault::Dup(*p), vec![*p]),
        ParseError::AmbiguousPlacesBetween { p, q } => (PnFault::Ambiguous(*p, *q), vec![*p, *q]),
        ParseError::PlaceOutOfStage { place, stage } => {
            ensure!(stage.num_bells() == n, "{}: {:?} names the wrong stage", what, e);
            (PnFault::Out(*place), vec![*place])
        }
    };
    ensure!(faults.contains(&f), "{} on {} bells: the error {:?} isn't true (what's wrong is {:?})", what, n, e, faults);
    let msg = e.to_string();
    for p in names {
        ensure!(msg.contains(&model::bell_name(p)), "{}: the message {:?} doesn't name place {}", what, msg, model::bell_name(p));
    }
    if let ParseError::AmbiguousPlacesBetween { p, q } = e {
        ensure!(msg.contains(&(q - p - 1).to_string()), "{}: the message {:?} doesn't count the bells between", what, msg);
    }
    Ok(())
}

/// Everything that can be observed about a place notation
fn check_pn(r: &mut Rng, pn: &PlaceNot, full: &[usize], n: usize, what: &str) -> R {
    eq!(pn.stage().num_bells(), n, "stage of {}", what);
    let got: Vec<usize> = (0..n + 3).filter(|&p| pn.contains(p)).collect();
    ensure!(got == full, "places made by {} on {} bells: got {:?}, expected {:?}", what, n, got, full);
    eq!(pn.is_cross(), full.is_empty(), "is_cross of {}", what);
    eq!(pn.has_internal_places(), full.iter().any(|&p| p != 0 && p != n - 1), "has_internal_places of {}", what);
    let e: String = if full.is_empty() { "-".into() } else { show(full) };
    eq!(pn.to_string(), e, "text of {}", what);
    // What it does
    let perm = model::pn_perm(full, n);
    eq!(ints(&pn.transposition()), perm, "transposition of {}", what);
    let a = gens::perm(r, n);
    let e = model::mul(&a, &perm);
    let row = rb(&a);
    eq!(pn.permute_new(&row).map(|r| ints(&r)).ok(), Some(e.clone()), "{} after {}", what, show(&a));
    eq!(ints(&row), a, "a row which isn't to be permuted");
    eq!(ints(&unsafe { pn.permute_new_unchecked(&row) }), e, "{} after {}", what, show(&a));
    let mut x = rb(&a);
    ensure!(pn.permute(&mut x).is_ok(), "{} can't permute {}", what, show(&a));
    eq!(ints(&x), e, "{} in place after {}", what, show(&a));
    // Twice is the identity
    unsafe { pn.permute_unchecked(&mut x) };
    eq!(ints(&x), a, "{} twice after {}", what, show(&a));
    // Rows of other stages
    let m = if r.bool() { n + 1 } else { (n - 1).max(1) };
    if m != n {
        let p = gens::perm(r, m);
        let mut x = rb(&p);
        let err = pn.permute(&mut x);
        ensure!(err.is_err(), "{} on {} bells permuted a row of {}", what, n, m);
        eq!(ints(&x), p, "row of the wrong stage after a failure");
        let err2 = pn.permute_new(&x).err();
        ensure!(err2.is_some(), "{} on {} bells permuted a row of {}", what, n, m);
        for err in [err.err(), err2] {
            let msg = err.map(|e| e.to_string()).unwrap();
            for s in [n, m] {
                ensure!(msg.contains(&model::stage_display(s)), "the message {:?} doesn't name {}", msg, model::stage_display(s));
            }
        }
    }
    Ok(())
}

fn check_places(c: &mut Case, places: &[usize], n: usize) -> R {
    let r = &mut c.rng.clone();
    let mut sorted = places.to_vec();
    sorted.sort();
    let what = format!("the places {:?}", sorted);
    let faults = model::pn_faults(&sorted, n);
    c.log(|| format!("{:?} on {} bells: {:?}", sorted, n, faults));
    let e = faults.is_empty().then(|| model::pn_fill(&sorted, n));
    let mut results = vec![unsafe { PlaceNot::from_sorted_slice(&sorted, st(n)) }];
    if places.iter().all(|&p| p < 33) {
        let mut shuffled = places.to_vec();
        r.shuffle(&mut shuffled);
        results.push(PlaceNot::parse(&show(&shuffled), st(n)));
        let noisy = gens::sprinkle(r, &show(&shuffled), &['.', ',', '+', '&', ' ', '|', '~', 'e', 'é', '🦀', 'I']);
        results.push(PlaceNot::parse(&noisy, st(n)));
    }
    for res in results {
        match (&res, &e) {
            (Ok(pn), Some(full)) => {
                check_pn(r, pn, full, n, &what)?;
                c.count("valid notations");
            }
            (Err(err), None) => {
                fault_is_listed(err, &faults, n, &what)?;
                c.count("invalid notations");
            }
            _ => return Err(format!("{} on {} bells gave {:?}, expected {:?} (what's wrong is {:?})", what, n, res, e, faults)),
        }
    }
    c.sig(mix(hash_usizes(&sorted)) ^ n as u64);
    Ok(())
}

fn pn_string(c: &mut Case) -> R {
    let n = gens::stage(&mut c.rng, 300);
    let s = gens::text(&mut c.rng, 8);
    check_pn_string(c, &s, n)?;
    c.sig(hash_str(&s) ^ n as u64);
    Ok(())
}

/// The stages at which one text is read, one after the other
fn several_stages(r: &mut Rng, n: usize) -> Vec<usize> {
    (0..r.range(3, 7))
        .map(|_| match r.below(8) {
            0..=1 => n,
            2 => n + 1,
            3..=4 => n + 2,
            5 => (n - 1).max(1),
            6 => n.saturating_sub(2).max(1),
            _ => gens::stage(r, 40),
        })
        .collect()
}

/// What a text means doesn't depend on what was read before it
fn pn_string_at_stages(c: &mut Case) -> R {
    let n = gens::stage(&mut c.rng, 33);
    let s = if c.rng.chance(1, 4) {
        gens::text(&mut c.rng, 8)
    } else {
        gens::full_places(&mut c.rng, n).iter().map(|&p| model::NAMES.chars().nth(p).unwrap()).collect()
    };
    for n in several_stages(&mut c.rng, n) {
        check_pn_string(c, &s, n)?;
        c.count("strings at several stages");
    }
    c.sig(hash_str(&s) ^ n as u64);
    Ok(())
}

fn block_at_stages(c: &mut Case) -> R {
    let (s, n) = block_text(&mut c.rng);
    for n in several_stages(&mut c.rng, n) {
        let mut t: &str = &s;
        if c.rng.chance(1, 4) {
            // Some of the text
            let i = c.rng.below(s.len() + 1);
            if s.is_char_boundary(i) {
                t = if c.rng.bool() { &s[i..] } else { &s[..i] };
            }
        }
        check_block(c, t, n)?;
        c.count("blocks at several stages");
    }
    Ok(())
}

fn check_pn_string(c: &mut Case, s: &str, n: usize) -> R {
    let r = &mut c.rng.clone();
    c.log(|| format!("{:?} on {} bells", s, n));
    let got = PlaceNot::parse(s, st(n));
    let what = format!("{:?}", s);
    if ["x", "X", "-"].contains(&s) {
        return match got {
            Ok(pn) if n % 2 == 0 => check_pn(r, &pn, &[], n, &what),
            Err(e) if n % 2 == 1 => fault_is_listed(&e, &[PnFault::OddCross], n, &what),
            _ => Err(format!("{} on {} bells gave {:?}", what, n, got)),
        };
    }
    let places = model::chars_to_bells(s);
    let faults = model::pn_faults(&places, n);
    match got {
        Ok(pn) if faults.is_empty() => {
            check_pn(r, &pn, &model::pn_fill(&places, n), n, &what)?;
            c.count("valid strings");
        }
        Err(e) if !faults.is_empty() => {
            fault_is_listed(&e, &faults, n, &what)?;
            c.count("invalid strings");
        }
        // A cross among things which are ignored could be understood as a cross
        Ok(pn) if pn.is_cross() && places.is_empty() && s.contains(['x', 'X', '-']) => {}
        got => return Err(format!("{} on {} bells gave {:?} (what's wrong is {:?})", what, n, got, faults)),
    }
    Ok(())
}

fn crosses(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let n = gens::stage(r, 300);
    c.log(|| format!("cross on {} bells", n));
    let x = PlaceNot::cross(st(n));
    eq!(x.is_some(), n % 2 == 0, "whether there's a cross on {} bells", n);
    if let Some(x) = &x {
        check_pn(r, x, &[], n, "a cross")?;
    }
    for s in ["x", "X", "-"] {
        let got = PlaceNot::parse(s, st(n));
        match (&got, &x) {
            (Ok(a), Some(b)) => ensure!(a == b, "{:?} parsed as {:?}", s, a),
            (Err(e), None) => fault_is_listed(e, &[PnFault::OddCross], n, s)?,
            _ => return Err(format!("{:?} on {} bells gave {:?}", s, n, got)),
        }
    }
    c.count("crosses");
    c.sig(n as u64);
    Ok(())
}

fn between(c: &mut Case, a: &[usize], b: &[usize]) -> R {
    c.log(|| format!("{} -> {}", show(a), show(b)));
    let e = model::pn_between(a, b);
    let got = PlaceNot::pn_between(&rb(a), &rb(b));
    match (&got, &e) {
        (Some(pn), Some(full)) => {
            check_pn(&mut c.rng, pn, full, a.len(), &format!("the change from {} to {}", show(a), show(b)))?;
            let next = pn.permute_new(&rb(a)).map_err(|e| e.to_string())?;
            eq!(ints(&next), b.to_vec(), "{} after {}", pn, show(a));
            ensure!(*pn == gens::pn(full, a.len()), "the change {:?} isn't equal to itself when built from its places", pn);
            c.count("changes found");
        }
        (None, None) => c.count("rows which aren't adjacent"),
        _ => return Err(format!("the change from {} to {} is {:?}, expected {:?}", show(a), show(b), got, e)),
    }
    c.sig(mix(hash_usizes(a)) ^ hash_usizes(b));
    Ok(())
}

/* ===== C09: BLOCKS OF PLACE NOTATION ===== */

pub const C09: &[Probe] = &[
    exhaustive("all-short-strings", 19_608, 137_257, |c| {
        // Every string of up to 5 (or 6) of these seven chars
        let mut i = c.idx;
        let mut len = 0;
        let mut count = 1u64;
        while i >= count {
            i -= count;
            count *= 7;
            len += 1;
        }
        let s: String = (0..len)
            .map(|_| {
                let ch = ['1', '4', 'x', '.', ',', '+', 'é'][(i % 7) as usize];
                i /= 7;
                ch
            })
            .collect();
        check_block(c, &s, 4)
    }),
    random("blocks", 40_000, |c| {
        let (s, n) = block_text(&mut c.rng);
        check_block(c, &s, n)
    }),
    random("damaged-blocks", 40_000, |c| {
        let (s, n) = block_text(&mut c.rng);
        let s = damage(&mut c.rng, &s);
        check_block(c, &s, n)
    }),
    random("texts", 30_000, |c| {
        let n = gens::stage(&mut c.rng, 300);
        let s = gens::text(&mut c.rng, 24);
        check_block(c, &s, n)
    }),
    random("blocks-at-several-stages", 10_000, block_at_stages),
    random("lists-of-changes", 20_000, lists_of_changes),
    random("calls", 10_000, calls),
];

/// A valid block of place notation, and its stage
pub fn block_text(r: &mut Rng) -> (String, usize) {
    // (Higher places have no names)
    let n = if r.chance(1, 12) { gens::stage(r, 300) } else { gens::stage(r, 33) };
    let parts = if r.chance(1, 30) { r.range(4, 12) } else { r.range(1, 3) };
    let max = if r.chance(1, 60) { 300 } else { 8 };
    let mut s = String::new();
    for i in 0..parts {
        if i > 0 {
            s.push(',');
        }
        if r.chance(1, 4) {
            s.push_str(*r.pick(&["+", " +", "é+", "+ ", ".+"]));
        } else if r.chance(1, 6) {
            s.push_str(*r.pick(&["&", " ", "é", "🦀 "]));
        }
        let mut need_sep = false;
        for _ in 0..r.range(if i == 0 { 1 } else { 0 }, max) {
            let f = if n > 33 {
                (0..50).map(|_| gens::places(r, 33)).find(|f| model::pn_faults(f, n).is_empty()).unwrap_or(vec![0])
            } else if r.bool() {
                gens::full_places(r, n)
            } else {
                gens::places(r, n)
            };
            if f.is_empty() || (n % 2 == 0 && r.chance(1, 3)) {
                if n % 2 == 0 {
                    if r.chance(1, 5) {
                        s.push_str(*r.pick(&[".", " "]));
                    }
                    s.push_str(*r.pick(&["x", "-", "X"]));
                    need_sep = false;
                }
            } else {
                if need_sep || r.chance(1, 8) {
                    s.push_str(*r.pick(&[".", " ", "..", ". "]));
                }
                let mut f = f;
                r.shuffle(&mut f);
                s.push_str(&if r.chance(1, 5) { gens::sprinkle(r, &show(&f), &['é', '🦀', '|', '&', 'I']) } else { show(&f) });
                need_sep = true;
            }
        }
    }
    (s, n)
}

pub fn damage(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 3) {
        let i = r.below(v.len() + 1);
        match r.below(5) {
            0 if i < v.len() => {
                v.remove(i);
            }
            1 => v.insert(i, *r.pick(&['+', ',', 'x', '-', '.', ' ', '1', '2', '5', 'E', 'Z', 'é', '🦀', '\0', '&'])),
            2 if i < v.len() => {
                let j = r.below(v.len());
                v.swap(i, j);
            }
            3 => v.truncate(i),
            _ => v.insert(i, model::NAMES.chars().nth(r.below(33)).unwrap()),
        }
    }
    v.into_iter().collect()
}

/// Check the result of a parse against the reference parser.  Returns the expected changes
pub fn check_block_result(got: &Result<PnBlock, PnBlockParseError>, s: &str, n: usize) -> Result<Option<Vec<Vec<usize>>>, String> {
    let e = model::parse_block(s, n);
    match (got, e) {
        (Ok(b), Ok(e)) => {
            let pns: Vec<Vec<usize>> = b.place_nots().map(gens::pn_places).collect();
            ensure!(pns == e, "{:?} on {} bells: got the changes {:?}, expected {:?}", s, n, pns, e);
            Ok(Some(e))
        }
        (Err(err), Err(faults)) => {
            let ok = faults.iter().any(|f| match (err, f) {
                (PnBlockParseError::EmptyBlock, BlockFault::Empty) => true,
                (PnBlockParseError::PlusNotAtBlockStart(i), BlockFault::Plus(j)) => i == j,
                (PnBlockParseError::PnError(range, err), BlockFault::Pn(start, end, limit, fs)) => {
                    range.start == *start && (*end..=*limit).contains(&range.end) && fault_is_listed(err, fs, n, "").is_ok()
                }
                _ => false,
            });
            ensure!(ok, "{:?} on {} bells: the error {:?} isn't true (what's wrong is {:?})", s, n, err, faults);
            let msg = err.to_string();
            match err {
                PnBlockParseError::PlusNotAtBlockStart(i) => ensure!(msg.contains(&i.to_string()), "{:?} doesn't name index {}", msg, i),
                PnBlockParseError::PnError(range, e) => ensure!(
                    msg.contains(&range.start.to_string()) && msg.contains(&e.to_string()),
                    "the message {:?} of {:?} doesn't say what's wrong",
                    msg,
                    err
                ),
                PnBlockParseError::EmptyBlock => {}
            }
            Ok(None)
        }
        (got, e) => Err(format!("{:?} on {} bells gave {:?}, expected {:?}", s, n, got, e)),
    }
}

fn check_block(c: &mut Case, s: &str, n: usize) -> R {
    c.log(|| format!("{:?} on {} bells", s, n));
    let got = PnBlock::parse(s, st(n));
    match check_block_result(&got, s, n)? {
        Some(e) => {
            c.count("valid blocks");
            check_pn_block(&mut c.rng, &got.unwrap(), &e, n)?;
        }
        None => c.count("invalid blocks"),
    }
    c.sig(hash_str(s) ^ n as u64);
    Ok(())
}

fn check_pn_block(r: &mut Rng, b: &PnBlock, e: &[Vec<usize>], n: usize) -> R {
    eq!(b.stage().num_bells(), n, "stage of a block");
    eq!(b.len(), e.len(), "length of a block");
    let start = gens::perm(r, n);
    let mut rows = vec![start.clone()];
    for f in e {
        rows.push(model::mul(rows.last().unwrap(), &model::pn_perm(f, n)));
    }
    let got = b.to_rows(rb(&start)).map_err(|e| e.to_string())?;
    eq!(gens::ssv_rows(&got), rows, "rows of {:?} from {}", e, show(&start));
    eq!(got.stage().num_bells(), n, "stage of the rows");
    let block: AnnotBlock<u32> = b.to_block(rb(&start)).map_err(|e| e.to_string())?;
    eq!(gens::ssv_rows(block.row_vec()), rows, "rows of the block of {:?} from {}", e, show(&start));
    eq!(block.len(), e.len(), "length of the block");
    eq!(block.annots().copied().collect::<Vec<_>>(), vec![0; e.len()], "annotations of the block");
    eq!(ints(block.leftover_row()), rows[e.len()], "leftover row of the block");
    let block: AnnotBlock<String> = b.to_block_from_rounds();
    let perm = model::inv(&start);
    let from_rounds: Vec<Vec<usize>> = rows.iter().map(|x| model::mul(&perm, x)).collect();
    eq!(gens::ssv_rows(block.row_vec()), from_rounds, "rows of {:?} from rounds", e);
    let m = if n > 1 && r.bool() { n - 1 } else { n + 1 };
    let p = gens::perm(r, m);
    ensure!(b.to_rows(rb(&p)).is_err(), "a block of {} bells was applied to {} bells", n, m);
    ensure!(b.to_block::<()>(rb(&p)).is_err(), "a block of {} bells was applied to {} bells", n, m);
    Ok(())
}

fn lists_of_changes(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let n = gens::stage(r, 140);
    let len = if r.chance(1, 100) { r.range(60, 600) } else { r.below(10) };
    let bad = len > 1 && r.chance(1, 3);
    let mut stages = vec![n; len];
    if bad {
        for _ in 0..r.range(1, 2) {
            stages[r.below(len)] = r.range(1, 20);
        }
    }
    let fulls: Vec<Vec<usize>> = stages.iter().map(|&n| gens::full_places(r, n)).collect();
    let pns: Vec<PlaceNot> = fulls.iter().zip(&stages).map(|(f, &n)| gens::pn(f, n)).collect();
    c.log(|| format!("changes {:?} on {:?} bells", fulls, stages));
    let results = [PnBlock::from_vec(pns.clone()), PnBlock::from_iter(gens::vague(&mut c.rng, pns.iter().cloned())), PnBlock::from_iter(pns.clone())];
    let uniform = stages.iter().all(|&s| s == stages[0]);
    for res in results {
        match res {
            Ok(b) if len > 0 && uniform => {
                eq!(b.place_nots().map(gens::pn_places).collect::<Vec<_>>(), fulls, "changes of a block");
                ensure!(b.place_nots().zip(&pns).all(|(a, b)| a == b), "the changes of {:?} aren't {:?}", b, pns);
                check_pn_block(r, &b, &fulls, stages[0])?;
                c.count("blocks of changes");
            }
            Err(InvalidPnBlockError::EmptyBlock) if len == 0 => c.count("empty blocks"),
            Err(err @ InvalidPnBlockError::IncompatibleStages(i, e)) if !uniform => {
                ensure!(
                    i < len
                        && stages[i] != stages[0]
                        && [stages[0], stages[i]].iter().all(|&s| e.to_string().contains(&model::stage_display(s)) && err.to_string().contains(&model::stage_display(s))),
                    "{:?} isn't true of changes on {:?} bells",
                    err,
                    stages
                );
                c.count("blocks of mixed stages");
            }
            got => return Err(format!("changes on {:?} bells gave {:?}", stages, got)),
        }
    }
    c.sig(hash_usizes(&fulls.concat()) ^ mix(hash_usizes(&stages)));
    Ok(())
}

fn calls(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let n = gens::stage(r, 33);
    let fulls: Vec<Vec<usize>> = (0..r.range(1, 6)).map(|_| gens::full_places(r, n)).collect();
    let b = PnBlock::from_iter(fulls.iter().map(|f| gens::pn(f, n))).map_err(|e| e.to_string())?;
    let mut perm = model::id(n);
    let mut all = vec![perm.clone()];
    for f in &fulls {
        perm = model::mul(&perm, &model::pn_perm(f, n));
        all.push(perm.clone());
    }
    let eff = all.iter().map(|p| p.iter().enumerate().rev().find(|(i, x)| i != *x).map_or(1, |(i, _)| i + 1)).max().unwrap();
    c.log(|| format!("a call with the changes {:?} on {} bells", fulls, n));
    let covers = r.below(10);
    let location: String = gens::text(r, 6);
    let notation = *r.pick(&['-', 's', 'x', '🦀', 'b']);
    let calls = [
        (Call::le_bob(b.clone()), '-', LABEL_LEAD_END.to_owned(), fulls.len()),
        (Call::le_single(b.clone()), 's', LABEL_LEAD_END.to_owned(), fulls.len()),
        (Call::new(notation, location.clone(), covers, b.to_block_from_rounds()), notation, location, covers),
    ];
    for (call, notation, location, covers) in &calls {
        eq!(call.notation(), *notation, "notation");
        eq!(call.location(), location.as_str(), "location");
        eq!(call.cover_len(), *covers, "cover_len");
        eq!(call.len(), fulls.len(), "len");
        eq!(call.stage().num_bells(), n, "stage");
        eq!(call.effective_stage().num_bells(), eff, "effective stage");
        eq!(ints(call.transposition()), perm, "transposition");
        eq!(gens::ssv_rows(call.block().row_vec()), all, "rows");
        let copy = call.clone();
        eq!(ints(copy.transposition()), perm, "transposition of a clone");
    }
    c.count("calls");
    c.sig(hash_usizes(&fulls.concat()) ^ n as u64);
    Ok(())
}
