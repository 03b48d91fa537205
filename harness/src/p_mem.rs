//! C21: memory safety.
//!
//! The oracle of this property isn't in this file: it's the instrument under which the workload runs
//! (Miri, AddressSanitizer, or the standard library's unsafe-precondition checks).  So every result
//! is used but none is judged, and panics are fine (what is judged is what happens afterwards).

use std::{
    collections::HashSet,
    hint::black_box,
    rc::Rc,
    sync::Arc,
};

use bellframe::{
    mask::Mask, music::Regex, row::RowAccumulator, AnnotBlock, Bell, Block, Call, Method, MethodLib, PlaceNot, PnBlock, Row, RowBuf,
    SameStageVec,
};

use crate::{
    ctx::{self, guard, random, Case, Probe, R},
    gens::{self, ints, rb, st},
    model,
    rng::{hash_usizes, mix, Rng},
};

pub const C21: &[Probe] = &[
    random("shared-pointers", 40_000, pointers),
    random("threads", 300, threads),
    random("mismatched-stages", 40_000, mismatched),
    random("unsafe-functions-within-their-contract", 40_000, contract),
    random("use-after-panics", 20_000, after_panics),
    random("iterators", 40_000, iterators),
    random("iterators-which-lie", 20_000, lies),
    random("parsers", 20_000, parsers),
];

fn stage(r: &mut Rng, thorough: bool) -> usize {
    match r.below(10) {
        0 => r.range(16, 18),
        1 if thorough => r.range(60, 70),
        2 => 1,
        _ => r.range(1, 9),
    }
}

fn read(r: &Row) {
    let mut s = 0;
    for b in r.bell_iter() {
        s ^= b.index();
    }
    for b in r.slice() {
        s ^= b.index();
    }
    for b in r {
        s ^= b.index();
    }
    for i in 0..r.stage().num_bells() {
        s ^= r[i].index();
    }
    black_box((s, r.is_rounds(), r.is_backrounds(), r.fast_hash(), r.to_string(), r.place_of(gens::bell(0)), r.effective_stage()));
    black_box(r.fixed_bells().count());
}

fn pointers(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let n = stage(r, c.thorough);
    let p = gens::perm(r, n);
    c.log(|| format!("{:?}", p));
    let row = rb(&p);
    let rc = row.to_rc();
    let arc = row.to_arc();
    let (rc2, arc2) = (rc.clone(), arc.clone());
    let (wrc, warc) = (Rc::downgrade(&rc), Arc::downgrade(&arc));
    drop(row);
    read(&rc);
    read(&arc);
    drop(rc);
    drop(arc);
    read(&rc2);
    read(&arc2);
    black_box(wrc.upgrade().map(|x| x.to_string()));
    black_box(&*rc2 == &*arc2);
    // Keep them in collections, use them as keys
    let mut set: HashSet<Rc<Row>> = HashSet::new();
    for _ in 0..r.below(6) {
        set.insert(rb(&gens::perm(r, n)).to_rc());
    }
    set.insert(rc2.clone());
    let key: &Row = &arc2;
    black_box(set.get(key).is_some());
    black_box(set.contains(key));
    drop(set);
    drop(rc2);
    let raw = Arc::into_raw(arc2);
    let back = unsafe { Arc::from_raw(raw) };
    read(&back);
    drop(back);
    black_box(warc.upgrade().is_none());
    // Borrow & ToOwned & Cow
    let row = rb(&p);
    let cow: std::borrow::Cow<Row> = std::borrow::Cow::Borrowed(row.as_row());
    let mut owned = cow.clone().into_owned();
    if n > 1 {
        owned.swap(r.below(n), r.below(n));
    }
    read(&owned);
    read(&cow);
    let r2: &Row = std::borrow::Borrow::borrow(&owned);
    read(r2);
    let r3: &Row = owned.as_ref();
    read(r3);
    c.count("rows shared");
    c.sig(hash_usizes(&p));
    Ok(())
}

/// Several threads reading the same objects
fn threads(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let n = stage(r, c.thorough).max(2);
    let rows: Vec<Vec<usize>> = (0..r.range(1, 5)).map(|_| gens::perm(r, n)).collect();
    let v = Arc::new(gens::ssv(n, &rows));
    let row = v.get(0).unwrap().to_arc();
    let block: Arc<AnnotBlock<u32>> = Arc::new(AnnotBlock::with_annots_from_indices((*v).clone(), |i| i as u32).unwrap());
    let regex = Arc::new(Regex::parse("*12*x"));
    let mask = Arc::new(Mask::full_row(&row));
    let pn = Arc::new(gens::pn(&gens::full_places(r, n), n));
    let lib = Arc::new(MethodLib::from_json(r#"{"groups":[{"s":6,"c":2,"m":[{"n":"Plain","p":"x16x16x16,12"}]}]}"#).unwrap());
    /// (Whether these types can be shared is judged elsewhere)
    struct AssertSend<T>(T);
    unsafe impl<T> Send for AssertSend<T> {}
    let handles: Vec<_> = (0..3)
        .map(|t| {
            let all = AssertSend((v.clone(), row.clone(), block.clone(), regex.clone(), mask.clone(), pn.clone(), lib.clone()));
            std::thread::spawn(move || {
                let all = all;
                let AssertSend((v, row, block, regex, mask, pn, lib)) = all;
                read(&row);
                for x in v.iter() {
                    read(x);
                    black_box((regex.matches(x), mask.matches(x)));
                    black_box(x.mul_result(&row).is_ok());
                    black_box(pn.permute_new(x).is_ok());
                }
                black_box(block.annot_rows().map(|a| *a.annot() as usize).sum::<usize>());
                let mut own = (*v).clone();
                black_box(own.pre_multiply(&row).is_ok());
                black_box(lib.get_by_title(if t == 0 { "plain bob minor" } else { "x" }).is_ok());
                let rc = row.to_arc();
                drop(row);
                AssertSend(rc)
            })
        })
        .collect();
    drop(v);
    drop(row);
    for h in handles {
        if let Ok(AssertSend(rc)) = h.join() {
            read(&rc);
        }
    }
    c.count("threads joined");
    c.sig(hash_usizes(&rows.concat()));
    Ok(())
}

/// Every safe function which has to check stages for soundness
fn mismatched(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let (n, m) = (stage(r, c.thorough), stage(r, c.thorough));
    c.log(|| format!("stages {} & {}", n, m));
    let (a, b) = (rb(&gens::perm(r, n)), rb(&gens::perm(r, m)));
    let mut rng = r.clone();
    macro_rules! go {
        ($($e:expr;)*) => {
            $( if let Ok(x) = guard(|| $e) { black_box(x); c.count("calls returned"); } else { c.count("calls panicked"); } )*
        };
    }
    let k = r.below(3);
    let mut out = rb(&gens::perm(r, *r.pick(&[n, m, 3])));
    let mut out2 = out.clone();
    let mut v = gens::ssv(n, &(0..k).map(|_| gens::perm(r, n)).collect::<Vec<_>>());
    let mut v2 = v.clone();
    let w = gens::ssv(m, &(0..r.below(3)).map(|_| gens::perm(r, m)).collect::<Vec<_>>());
    let mut acc = RowAccumulator::new(a.clone());
    let pn = gens::pn(&gens::full_places(r, m), m);
    let pnb = PnBlock::from_vec(vec![pn.clone()]).unwrap();
    let mut block: Block = AnnotBlock::with_default_annots(gens::ssv(n, &[gens::perm(r, n), gens::perm(r, n)]));
    let other: Block = AnnotBlock::with_default_annots(gens::ssv(m, &[gens::perm(r, m), gens::perm(r, m), gens::perm(r, m)]));
    let mask = Mask::fix_bells(st(m), (0..m).filter(|i| i % 2 == 0).map(gens::bell));
    go! {
        a.mul_result(&b);
        &a * &b;
        a.mul_into(&b, &mut out);
        a.mul_into_row(&b, &mut out2);
        a.inv_into(&mut out2);
        a.inv_into_buf(&mut out);
        b.copy_into(&mut out);
        Row::solve_ax_equals_b(&a, &b);
        Row::solve_xa_equals_b(&a, &b);
        a.tranposition_to(&b);
        Row::is_group([a.as_row(), b.as_row()].into_iter());
        Row::multi_cartesian_product(vec![vec![&a, &b], vec![&b]]);
        v.push(&b);
        v.extend([&a, &b].into_iter());
        v.extend_from_buf(&w);
        v.extend_transposed(&b, &w);
        v.extend_transposed(&a, &w);
        v.extend_range_transposed(&a, &w, 0..1);
        v.extend_range_transposed(&b, &w, ..);
        v.extend_transposed_from_within(.., &b);
        v.extend_transposed_from_within(0..rng.below(4), &a);
        v.pre_multiply(&b);
        v.pre_multiplied(&b);
        acc.accumulate(&b);
        acc.pre_accumulate(&b);
        acc.set(&b);
        acc.accumulate(&a);
        pn.permute(out2.as_mut_row());
        pn.permute_new(&a);
        PlaceNot::pn_between(&a, &b);
        PnBlock::from_vec(vec![pn.clone(), gens::pn(&gens::full_places(&mut rng, n), n)]);
        pnb.to_rows(a.clone());
        pnb.to_block::<()>(a.clone());
        block.extend(&other);
        block.extend_range(&other, 0..2);
        block.extend_range(&other, 1..9);
        block.pre_multiply(&b);
        block.repeat_iter(b.clone()).map(|i| i.take(5).count());
        block.extend_from_within(0..rng.below(4));
        mask.matches(&a);
        mask.is_subset_of(&Mask::full_row(&a));
        mask.combine(&Mask::empty(st(n)));
        Regex::parse("1*2").matches(&b);
        v2.get_mut(rng.below(4)).map(|x| x.swap(0, rng.below(9)));
        out.extend_to_stage(st(m.max(n)));
        out.overwrite_from(&a);
        a.get(n);
        a[n];
        v2[k].to_string();
        v2.clone().split(rng.below(5)).map(|(x, y)| (x.len(), y.len()));
        v2.pop();
    }
    if n * m <= 20 {
        go! { Row::least_group_containing([a.as_row(), b.as_row()].into_iter()).map(|s| s.len()); }
    }
    read(&out);
    read(&out2);
    read(acc.total());
    for x in v.iter().chain(v2.iter()).chain(block.all_rows()) {
        read(x);
    }
    c.sig(mix(n as u64) ^ m as u64 ^ mix(hash_usizes(&ints(&a))) ^ hash_usizes(&ints(&b)));
    Ok(())
}

trait GetBell {
    fn get(&self, i: usize) -> Option<Bell>;
}
impl GetBell for RowBuf {
    fn get(&self, i: usize) -> Option<Bell> {
        self.slice().get(i).copied()
    }
}

/// The unsafe functions, called as their documentation allows
fn contract(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let n = stage(r, c.thorough);
    let (p, q) = (gens::perm(r, n), gens::perm(r, n));
    let (a, b) = (rb(&p), rb(&q));
    c.log(|| format!("{:?} {:?}", p, q));
    let mut out = rb(&gens::perm(r, n));
    let mut bells = gens::bells(&p);
    unsafe {
        black_box(a.mul_unchecked(&b));
        a.mul_into_unchecked(&b, &mut out);
        let mut any = rb(&gens::perm(r, *r.pick(&[1, n, n + 3])));
        a.mul_into_unchecked(&b, &mut any);
        read(&any);
        a.mul_into_row_unchecked(&b, &mut out);
        black_box(a.tranposition_to_unchecked(&b));
        for i in 0..n {
            black_box(a.get_bell_unchecked(i));
        }
        read(Row::from_slice_unchecked(&bells));
        let m = Row::from_mut_slice_unchecked(&mut bells);
        m.swap(0, n - 1);
        read(m);
        read(&RowBuf::from_vec_unchecked(bells.clone()));
        read(&RowBuf::from_bell_iter_unchecked(bells.iter().copied()));
        let f = gens::full_places(r, n);
        let pn = gens::pn(&f, n);
        pn.permute_unchecked(&mut out);
        read(&pn.permute_new_unchecked(&a));
        let v = PnBlock::from_vec_unchecked(vec![pn.clone(), pn]);
        black_box(v.to_rows(a.clone()).map(|x| x.iter().map(|x| read(x)).count()).is_ok());
        let v = SameStageVec::from_bell_vec_unchecked([p, q].concat().into_iter().map(gens::bell).collect(), st(n));
        for x in &v {
            read(x);
        }
        let mut m = Mask::empty(st(n));
        m.set_bell_unchecked(gens::bell(0), n - 1);
        if n > 1 {
            m.fix_unchecked(gens::bell(n / 2 - (n == 2) as usize));
        }
        black_box(m.matches(&a));
        let x = Regex::from_vec_unchecked(vec![]);
        black_box(x.matches(&a));
    }
    read(&out);
    c.count("contracts respected");
    c.sig(hash_usizes(&ints(&a)) ^ mix(hash_usizes(&ints(&b))));
    Ok(())
}

/// Objects stay safe to use (even if their values are unspecified) after a caught panic
fn after_panics(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let n = stage(r, c.thorough);
    let mut row = rb(&gens::perm(r, n));
    let mut v = gens::ssv(n, &(0..r.below(4)).map(|_| gens::perm(r, n)).collect::<Vec<_>>());
    let mut block: AnnotBlock<String> =
        AnnotBlock::with_annots_from_indices(gens::ssv(n, &(0..r.range(1, 4)).map(|_| gens::perm(r, n)).collect::<Vec<_>>()), |i| i.to_string()).unwrap();
    let big = [n, n + 1, usize::MAX, usize::MAX / n, usize::MAX / 2 + 1, usize::MAX / 4 + 1, 0];
    c.log(|| format!("{} bells, {} rows", n, v.len()));
    for _ in 0..r.range(2, if ctx::small() { 5 } else { 14 }) {
        let i = *r.pick(&big);
        let j = *r.pick(&big);
        let src = rb(&gens::perm(r, n));
        let b2 = block.clone();
        let res = match r.below(16) {
            0 => guard(|| row.swap(i, j)),
            1 => guard(|| drop(v[i].to_string())),
            2 => guard(|| v.get_mut(i.min(3)).unwrap().swap(0, j)),
            3 => guard(|| drop(v.extend_range_transposed(&src, b2.row_vec(), i..j))),
            4 => guard(|| drop(v.extend_transposed_from_within(i..j, &src))),
            5 => guard(|| drop(block.extend_range(&b2, i..j))),
            6 => guard(|| block.extend_from_within(i..j)),
            7 => guard(|| {
                // An iterator which panics half way
                let mut k = 0;
                drop(v.extend(std::iter::from_fn(|| {
                    k += 1;
                    if k > 2 {
                        panic!("half way")
                    }
                    Some(&src)
                })))
            }),
            8 => guard(|| row.extend_to_stage(st(n))),
            9 => guard(|| {
                let mut k = 0;
                black_box(b2.map_annots_with_index(|i, s| if i > 0 { panic!("half way") } else { s.len() }).len());
                k += 1;
                black_box(k);
            }),
            10 => guard(|| drop(black_box(RowBuf::from_bell_iter(ints(&src).into_iter().enumerate().map(|(i, b)| if i == 2 { panic!("half way") } else { gens::bell(b) }))))),
            11 => guard(|| black_box(drop(block.get_annot_mut(i).map(|s| s.push('x'))))),
            12 => guard(|| {
                row.mul_into(&src, &mut rb(&[0])).ok();
                row.overwrite_from(&src);
            }),
            13 => guard(|| drop(v.pop())),
            14 => guard(|| drop(v.push(&src))),
            _ => guard(|| drop(black_box(v.clone().split(i)))),
        };
        c.count(if res.is_ok() { "calls returned" } else { "calls panicked" });
        // Use them all
        black_box(guard(|| {
            read(&row);
            black_box((&row * &src, row.inv()));
        })
        .is_ok());
        black_box(guard(|| v.iter().for_each(read)).is_ok());
        black_box(guard(|| v.iter().rev().for_each(read)).is_ok());
        black_box(guard(|| block.annot_rows().for_each(|x| drop(black_box((x.row().to_string(), x.annot().len()))))).is_ok());
        black_box(guard(|| drop(black_box(v.pre_multiplied(&src)))).is_ok());
    }
    c.sig(r.u64());
    Ok(())
}

fn iterators(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let n = stage(r, c.thorough);
    let rows: Vec<Vec<usize>> = (0..r.below(6)).map(|_| gens::perm(r, n)).collect();
    let mut v = gens::ssv(n, &rows);
    c.log(|| format!("{} rows of {} bells", rows.len(), n));
    let mut it = v.iter();
    let mut keep: Vec<&Row> = vec![];
    for _ in 0..r.range(1, 12) {
        let k = *r.pick(&[0, 0, 1, 2, 7, usize::MAX, usize::MAX / n]);
        let res = guard(|| match r.below(8) {
            0 => it.next(),
            1 => it.next_back(),
            2 => it.nth(k),
            3 => it.nth_back(k.min(9)),
            4 => it.clone().last(),
            5 => it.clone().next(),
            6 => {
                black_box((it.len(), it.size_hint(), it.clone().count()));
                None
            }
            _ => it.clone().rev().step_by(2).last(),
        });
        if let Ok(Some(x)) = res {
            keep.push(x);
            c.count("rows yielded");
        }
    }
    for k in keep {
        read(k);
    }
    let mut b = gens::ssv(n, &[model::id(n)]);
    if let Some(x) = v.first_mut() {
        x.swap(0, n - 1);
    }
    if let Some(x) = v.last_mut() {
        black_box(b.push(x).is_ok());
        x.swap(0, n - 1);
    }
    for x in v.iter() {
        read(x);
    }
    let block: AnnotBlock<Box<u32>> = AnnotBlock::with_annots_from_indices(b, |i| Box::new(i as u32)).unwrap();
    if let Ok(mut it) = block.repeat_iter(rb(&gens::perm(r, n))) {
        let mut out = rb(&[0]);
        for _ in 0..4 {
            black_box(it.next_into(&mut out));
            read(&out);
            if let Some((row, _, a)) = it.next() {
                read(&row);
                black_box(a);
            }
        }
    }
    black_box(block.split(r.below(4)).map(|(a, b)| (a.len(), b.len())));
    c.sig(hash_usizes(&rows.concat()) ^ r.u64());
    Ok(())
}

/// Text, through everything which builds rows from it
fn parsers(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let (s, n) = crate::p_pn::block_text(r);
    let s = if r.bool() { crate::p_pn::damage(r, &s) } else { s };
    c.log(|| format!("{:?} on {} bells", s, n));
    if let Ok(Ok(b)) = guard(|| PnBlock::parse(&s, st(n))) {
        if let Ok(Ok(rows)) = guard(|| b.to_rows(RowBuf::rounds(st(n)))) {
            rows.iter().for_each(read);
        }
        let block: Block = b.to_block_from_rounds();
        if let Ok(m) = guard(|| Method::from_place_not_string(String::new(), st(n), &s)) {
            black_box(m.map(|m| m.title().to_owned()).is_ok());
        }
        black_box(block.len());
        c.count("blocks parsed");
    }
    black_box(guard(|| Call::le_bob(PnBlock::parse("14", st(n.max(4))).unwrap())).is_ok());
    if let Ok(Ok(x)) = guard(|| RowBuf::parse_with_stage(&s, st(n))) {
        read(&x);
    }
    if let Ok(Ok(x)) = guard(|| RowBuf::parse(&s)) {
        read(&x);
    }
    let t: String = (0..r.range(1, 3)).map(|_| gens::show(&gens::perm(r, n)) + "\n").collect();
    if let Ok(Ok(v)) = guard(|| SameStageVec::parse(&t)) {
        v.iter().for_each(read);
        c.count("vecs parsed");
    }
    let x = Regex::parse(&s);
    black_box(x.matches(&rb(&gens::perm(r, n.min(9)))));
    let m = Mask::parse(&s);
    black_box(guard(|| m.as_row().map(|x| read(&x))).is_ok());
    c.sig(crate::rng::hash_str(&s));
    Ok(())
}

/// Safe code can implement any trait wrongly: size hints may be untrue, iterators may go on after their end,
/// copies of iterators may yield something else, and values may be other rows each time they're looked at
fn lies(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let n = stage(r, c.thorough);
    let rows: Vec<RowBuf> = (0..r.range(1, 8)).map(|_| rb(&gens::perm(r, n))).collect();
    c.log(|| format!("{:?}", rows));
    let calls = std::cell::Cell::new(r.u64());
    // Anything which depends on when it's called
    let whim = |n: usize| {
        calls.set(mix(calls.get()));
        calls.get() as usize % n
    };
    struct Fickle<'a>(&'a [RowBuf], &'a dyn Fn(usize) -> usize);
    impl AsRef<Row> for Fickle<'_> {
        fn as_ref(&self) -> &Row {
            &self.0[(self.1)(self.0.len())]
        }
    }
    let mut fickle = rows.clone();
    fickle.push(rb(&gens::perm(r, n + 1)));
    if n > 1 {
        fickle.push(rb(&gens::perm(r, n - 1)));
    }
    let of: &[RowBuf] = if r.bool() { &rows } else { &fickle };
    let k = r.below(6);
    let done = guard(|| match c.idx % 10 {
        0 => {
            let mut v = gens::ssv(n, &[model::id(n)]);
            black_box(v.extend(gens::untrue(r, rows.iter())).is_ok());
            black_box(v.extend(gens::untrue(r, (0..k).map(|_| Fickle(of, &whim)))).is_ok());
            v.iter().for_each(read);
        }
        1 => {
            let bells = ints(&rows[0]);
            if let Ok(x) = RowBuf::from_bell_iter(gens::untrue(r, bells.iter().map(|&b| gens::bell(b)))) {
                read(&x);
            }
            if let Ok(x) = RowBuf::from_bell_iter(gens::untrue(r, (0..n).map(|_| gens::bell(whim(n))))) {
                read(&x);
            }
        }
        2 => {
            let sets: Vec<Vec<Fickle>> = (0..k % 4).map(|_| (0..1 + whim(2)).map(|_| Fickle(of, &whim)).collect()).collect();
            let sets: Vec<_> = sets.into_iter().map(|s| gens::untrue(r, s.into_iter())).collect();
            if let Ok(rows) = Row::multi_cartesian_product(gens::untrue(r, sets.into_iter())) {
                rows.iter().for_each(|x| read(x));
            }
        }
        3 => {
            black_box(Row::is_group(gens::untrue(r, rows.iter().map(|x| x.as_row()))).is_ok());
            black_box(Row::is_group(gens::untrue(r, (0..k).map(|_| of[whim(of.len())].as_row()))).is_ok());
        }
        4 => {
            if n < 6 {
                // (Few rows of two stages, or it'd go on for long)
                let few = &of[of.len().saturating_sub(3)..];
                if let Ok(set) = Row::least_group_containing(gens::untrue(r, (0..k % 3).map(|_| few[whim(few.len())].as_row()))) {
                    set.iter().for_each(|x| read(x));
                }
            }
        }
        5 => {
            let pns: Vec<PlaceNot> = (0..3).map(|i| gens::pn(&gens::full_places(r, n + i / 2), n + i / 2)).collect();
            if let Ok(b) = PnBlock::from_iter(gens::untrue(r, (0..k).map(|_| pns[whim(if of.len() == rows.len() { 2 } else { 3 })].clone()))) {
                let v = b.to_rows(RowBuf::rounds(b.stage()));
                v.iter().for_each(|v| v.iter().for_each(read));
            }
        }
        6 => {
            let elems: Vec<_> = Regex::parse("1*x2").elems().to_vec();
            let x = Regex::from_elems(gens::untrue(r, (0..k).map(|_| elems[whim(4)])));
            black_box((x.matches(&rows[0]), x.match_pattern(&rows[0]), x.num_matching_rows(st(n))));
        }
        7 => {
            let m = Mask::fix_bells(st(n), gens::untrue(r, (0..k).map(|_| gens::bell(whim(n)))));
            black_box((m.as_row(), m.matches(&rows[0]), m.to_string()));
        }
        8 => {
            // Ranges which are different every time
            #[derive(Clone)]
            struct Range<'a>([usize; 5], &'a dyn Fn(usize) -> usize);
            impl std::fmt::Debug for Range<'_> {
                fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    write!(f, "{}", (self.1)(5))
                }
            }
            impl Range<'_> {
                fn bound(&self) -> std::ops::Bound<&usize> {
                    let x = &self.0[(self.1)(5)];
                    match (self.1)(6) {
                        0 => std::ops::Bound::Unbounded,
                        1 | 2 => std::ops::Bound::Excluded(x),
                        _ => std::ops::Bound::Included(x),
                    }
                }
            }
            impl std::ops::RangeBounds<usize> for Range<'_> {
                fn start_bound(&self) -> std::ops::Bound<&usize> {
                    self.bound()
                }
                fn end_bound(&self) -> std::ops::Bound<&usize> {
                    self.bound()
                }
            }
            let mut v = gens::ssv(n, &rows.iter().map(|x| ints(x)).collect::<Vec<_>>());
            let mut x = AnnotBlock::with_annots_from_indices(v.clone(), |i| i.to_string()).unwrap();
            let y = x.clone();
            let range = Range([0, 1, rows.len() / 2, rows.len(), if k == 0 { usize::MAX } else { rows.len() + 1 }], &whim);
            for _ in 0..4 {
                let _ = guard(|| x.extend_range(&y, range.clone()).is_ok());
                let _ = guard(|| x.extend_from_within(range.clone()));
                let _ = guard(|| v.extend_range_transposed(&rows[0], y.row_vec(), range.clone()).is_ok());
                let _ = guard(|| v.extend_transposed_from_within(range.clone(), &rows[0]).is_ok());
                for (i, a) in x.annot_rows().enumerate() {
                    read(a.row());
                    black_box((a.annot().len(), x.get_annot(i), x.get_row(i)));
                }
                read(x.leftover_row());
                black_box(v.iter().len());
                if x.len() + v.len() > 300 {
                    break;
                }
            }
        }
        _ => {
            // Annotations which aren't equal to themselves, and whose copies are others
            struct Odd<'a>(usize, &'a dyn Fn(usize) -> usize);
            impl Clone for Odd<'_> {
                fn clone(&self) -> Self {
                    Odd((self.1)(5), self.1)
                }
            }
            impl std::fmt::Debug for Odd<'_> {
                fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    write!(f, "{}", (self.1)(5))
                }
            }
            impl PartialEq for Odd<'_> {
                fn eq(&self, _: &Self) -> bool {
                    (self.1)(2) == 0
                }
            }
            let v = gens::ssv(n, &rows.iter().map(|x| ints(x)).collect::<Vec<_>>());
            let mut x = AnnotBlock::with_annots_from_indices(v.clone(), |i| Odd(i, &whim)).unwrap();
            let y = AnnotBlock::with_annots_from_indices(v, |i| Odd(whim(3) + i, &whim)).unwrap();
            black_box(x == y);
            black_box(x.extend(&y).is_ok());
            x.extend_from_within(k % x.len().max(1)..);
            if let Ok(it) = x.repeat_iter(rows[0].clone()) {
                it.take(10).for_each(|(row, _, a)| {
                    read(&row);
                    black_box(a.0);
                });
            }
            for a in x.annot_rows() {
                read(a.row());
                black_box(a.annot().0);
            }
            black_box(x.clone() == x);
        }
    });
    c.count(if done.is_ok() { "lies told" } else { "panics" });
    c.sig(hash_usizes(&rows.iter().map(|x| ints(x)).collect::<Vec<_>>().concat()) ^ r.u64());
    Ok(())
}
