//! C15, C16: methods, their plain courses, their classification and their titles

use bellframe::{
    block::AnnotBlock,
    method::{
        class::{Class, FullClass, HuntBellClass},
        generate_title, LABEL_LEAD_END,
    },
    Block, Method, PnBlock,
};

use crate::{
    ctx::{exhaustive, guard, random, Case, Probe, R},
    ensure, eq,
    gens::{self, ints, st},
    model::{self, P},
    p_pn::{block_text, check_block_result, damage},
    rng::{hash_str, hash_usizes, mix, Rng},
};

type Lead = AnnotBlock<Option<String>>;

/// The rows of the lead which starts at rounds, including the lead head
pub fn lead_rows(changes: &[Vec<usize>], n: usize) -> Vec<P> {
    let mut rows = vec![model::id(n)];
    for c in changes {
        let next = model::mul(rows.last().unwrap(), &model::pn_perm(c, n));
        rows.push(next);
    }
    rows
}

pub fn pn_block(changes: &[Vec<usize>], n: usize) -> Option<PnBlock> {
    PnBlock::from_vec(changes.iter().map(|c| gens::pn(c, n)).collect()).ok()
}

fn sig_changes(changes: &[Vec<usize>], n: usize) -> u64 {
    changes.iter().fold(mix(n as u64), |h, c| mix(h ^ hash_usizes(c)))
}

/* ===== C15: METHODS ===== */

pub const C15: &[Probe] = &[
    random("plain-courses", 25_000, plain_course),
    random("from-place-notation", 25_000, from_string),
    random("label-histories", 15_000, labels),
];

/// The changes of a random lead, whose plain course isn't too long
fn some_changes(r: &mut Rng) -> (Vec<Vec<usize>>, usize) {
    loop {
        let long = r.chance(1, 100);
        let n = if long { r.range(1, 8) } else { gens::stage(r, 140) };
        let max = if long { 700 } else { *r.pick(&[1, 2, 4, 12, 30]) };
        let mut changes: Vec<Vec<usize>> = (0..r.range(1, max)).map(|_| gens::full_places(r, n)).collect();
        if r.bool() {
            // Symmetric
            let m = changes.clone();
            changes.push(gens::full_places(r, n));
            changes.extend(m.into_iter().rev());
            if r.bool() {
                changes.push(gens::full_places(r, n));
            }
        }
        let rows = lead_rows(&changes, n);
        if model::order(rows.last().unwrap()) * changes.len() as u128 * n as u128 <= if long { 80_000 } else { 20_000 } {
            return (changes, n);
        }
    }
}

/// Build a lead with random labels
fn build_lead(r: &mut Rng, changes: &[Vec<usize>], n: usize) -> Result<(Lead, Vec<Option<String>>), String> {
    let rows = lead_rows(changes, n);
    let mut labels: Vec<Option<String>> = vec![None; changes.len()];
    let mut lead: Lead = match r.below(3) {
        0 => pn_block(changes, n).ok_or("PnBlock::from_vec of some changes gave None")?.to_block_from_rounds(),
        1 => AnnotBlock::with_default_annots(gens::ssv(n, &rows)),
        _ => AnnotBlock::with_annots_from_indices(gens::ssv(n, &rows), |_| None).ok_or("with_annots_from_indices gave None")?,
    };
    for _ in 0..r.below(4) {
        let i = r.below(changes.len());
        labels[i] = some_label(r);
        *lead.get_annot_mut(i).ok_or("no annotation")? = labels[i].clone();
    }
    Ok((lead, labels))
}

fn some_label(r: &mut Rng) -> Option<String> {
    match r.below(6) {
        0 => None,
        1 => Some(String::new()),
        2 => Some("LE".to_owned()),
        3 => Some("Half Lead".to_owned()),
        4 => Some("le".to_owned()),
        _ => Some(gens::text(r, 4)),
    }
}

fn check_block_rows<A>(b: &AnnotBlock<A>, rows: &[P], what: &str) -> R {
    eq!(b.len() + 1, rows.len(), "number of rows of {}", what);
    let got: Vec<P> = b.all_rows().map(ints).collect();
    ensure!(got == rows, "{}: the rows are {:?}, expected {:?}", what, got, rows);
    Ok(())
}

/// Check everything that can be read from a method
fn check_method(c: &mut Case, m: &Method, changes: &[Vec<usize>], n: usize, labels: &[Option<String>]) -> R {
    let r = &mut c.rng.clone();
    let rows = lead_rows(changes, n);
    let len = changes.len();
    let lead_head = rows[len].clone();
    eq!(m.stage().num_bells(), n, "stage");
    eq!(m.lead_len(), len, "lead_len");
    eq!(ints(m.lead_head()), lead_head, "lead_head");
    check_block_rows(m.first_lead(), &rows, "first_lead()")?;
    #[allow(deprecated)]
    check_block_rows(m.lead(), &rows, "lead()")?;
    let got: Vec<Option<String>> = m.first_lead().annots().cloned().collect();
    eq!(got, labels.to_vec(), "labels of the first lead");
    for i in 0..=len {
        eq!(ints(m.row_in_plain_lead(i)), rows[i], "row_in_plain_lead({})", i);
    }

    // The plain course is the leads started by the powers of the lead head
    let leads = model::order(&lead_head) as usize;
    let course = m.plain_course();
    eq!(course.stage().num_bells(), n, "stage of the plain course");
    eq!(course.len(), len * leads, "length of the plain course ({} leads of {} rows)", leads, len);
    let mut heads: Vec<P> = vec![];
    for k in 0..leads {
        let head = model::pow(&lead_head, k as i128);
        heads.push(head.clone());
        for i in 0..len {
            let idx = k * len + i;
            let ar = course.get_annot_row(idx).ok_or_else(|| format!("no row {} in the plain course", idx))?;
            eq!(ints(ar.row()), model::mul(&head, &rows[i]), "row {} of the plain course", idx);
            eq!(ar.annot().sub_lead_idx(), i, "sub_lead_idx of row {} of the plain course", idx);
            eq!(ar.annot().label(), labels[i].as_deref(), "label of row {} of the plain course", idx);
        }
    }
    ensure!(course.leftover_row().is_rounds(), "the plain course doesn't end in rounds");
    eq!(course.annots().count(), len * leads, "number of annotations of the plain course");
    c.count_n("plain course rows", (len * leads) as u64);
    if leads > 1 {
        c.count("courses of several leads");
    }

    for _ in 0..12 {
        let idx = match r.below(6) {
            0 => r.below(len * leads),
            1 => r.below(leads + 1) * len,
            2 => (r.range(1, leads + 1) * len) - 1,
            3 => r.below(len * leads * 3),
            4 => (*r.pick(&[usize::MAX, usize::MAX / 2, usize::MAX - 1, gens::two_to(32), gens::two_to(32) - 1, 1 << 31, 1 << 16, 65_535, gens::two_to(63)])).max(3) - r.below(3),
            _ => r.below(3_000),
        };
        let exp = model::mul(&model::pow(&lead_head, (idx / len) as i128), &rows[idx % len]);
        eq!(ints(&m.row_in_plain_course(idx)), exp, "row_in_plain_course({})", idx);
    }
    Ok(())
}

fn check_labels(r: &mut Rng, m: &Method, labels: &[Option<String>]) -> R {
    for (i, l) in labels.iter().enumerate() {
        eq!(m.get_label(i), l.as_deref(), "get_label({})", i);
    }
    let mut wanted: Vec<String> = labels.iter().flatten().cloned().collect();
    wanted.push(LABEL_LEAD_END.to_owned());
    wanted.push(String::new());
    wanted.push(gens::text(r, 3));
    for w in wanted {
        let exp: Vec<usize> = (0..labels.len()).filter(|&i| labels[i].as_deref() == Some(w.as_str())).collect();
        eq!(m.label_indices(&w).collect::<Vec<_>>(), exp, "label_indices({:?})", w);
    }
    Ok(())
}

fn some_name(r: &mut Rng) -> String {
    match r.below(6) {
        0 => String::new(),
        1 => "Cambridge".to_owned(),
        2 => "Bristol Surprise".to_owned(),
        3 => "Ħal Għaxaq ".to_owned(),
        _ => gens::text(r, 12),
    }
}

fn some_class(r: &mut Rng) -> (FullClass, model::Class, bool) {
    let (class, name) = *r.pick(&CLASSES);
    let (j, l, d) = (r.bool(), r.bool(), r.bool());
    (FullClass::new(j, l, d, class), model::Class { little: l, differential: d, name }, j)
}

fn plain_course(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let (changes, n) = some_changes(r);
    c.log(|| format!("{} bells, changes {:?}", n, changes));
    let (lead, labels) = build_lead(r, &changes, n)?;
    let name = some_name(r);
    let m = match r.below(3) {
        0 => {
            let title = gens::text(r, 12);
            let (class, _, _) = some_class(r);
            let m = Method::new(title.clone(), name.clone(), class, lead);
            eq!(m.title(), title, "title of Method::new");
            m
        }
        1 => {
            let m = Method::with_name(name.clone(), lead);
            let class = model::classify(&changes, n);
            eq!(m.title(), model::title(&name, &class, false, n), "title of Method::with_name");
            m
        }
        _ => {
            let block = pn_block(&changes, n).ok_or("no block")?;
            let m = Method::with_lead_end(name.clone(), &block);
            let class = model::classify(&changes, n);
            eq!(m.title(), model::title(&name, &class, false, n), "title of Method::with_lead_end");
            let mut labels = vec![None; changes.len()];
            *labels.last_mut().unwrap() = Some(LABEL_LEAD_END.to_owned());
            eq!(m.name(), name, "name of Method::with_lead_end");
            check_labels(r, &m, &labels)?;
            check_method(c, &m, &changes, n, &labels)?;
            c.sig(sig_changes(&changes, n));
            return Ok(());
        }
    };
    eq!(m.name(), name, "name of the method");
    check_labels(r, &m, &labels)?;
    check_method(c, &m, &changes, n, &labels)?;
    check_method(c, &m.clone(), &changes, n, &labels)?;
    let past = changes.len() + r.range(1, 5);
    ensure!(guard(|| ints(m.row_in_plain_lead(past))).is_err(), "row_in_plain_lead({}) of a lead of {} rows", past, changes.len());
    c.sig(sig_changes(&changes, n));
    Ok(())
}

fn from_string(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let (mut s, mut n) = block_text(r);
    match r.below(8) {
        0 | 1 => s = damage(r, &s),
        2 => n = gens::stage(r, 140),
        3 => s = gens::text(r, 12),
        _ => {}
    }
    c.log(|| format!("{:?} on {} bells", s, n));
    let name = some_name(r);
    let m = guard(|| Method::from_place_not_string(name.clone(), st(n), &s))
        .map_err(|e| format!("from_place_not_string({:?}) on {} bells panicked: {}", s, n, e))?;
    match m {
        Err(e) => {
            check_block_result(&Err(e), &s, n)?;
            c.count("methods rejected");
        }
        Ok(m) => {
            let changes = model::parse_block(&s, n).map_err(|e| format!("{:?} on {} bells was accepted, but has {:?}", s, n, e))?;
            eq!(m.name(), name, "name");
            let class = model::classify(&changes, n);
            eq!(m.title(), model::title(&name, &class, false, n), "title of {:?} on {} bells", s, n);
            let rows = lead_rows(&changes, n);
            let labels = vec![None; changes.len()];
            if model::order(rows.last().unwrap()) * changes.len() as u128 * n as u128 <= 20_000 {
                check_method(c, &m, &changes, n, &labels)?;
            } else {
                check_block_rows(m.first_lead(), &rows, "first_lead()")?;
                eq!(m.lead_len(), changes.len(), "lead_len");
                eq!(ints(m.lead_head()), *rows.last().unwrap(), "lead_head");
            }
            c.count("methods parsed");
            c.sig(hash_str(&s) ^ n as u64);
        }
    }
    Ok(())
}

fn labels(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let (changes, n) = some_changes(r);
    let (lead, mut labels) = build_lead(r, &changes, n)?;
    let (class, _, _) = some_class(r);
    let mut m = Method::new("T".to_owned(), "N".to_owned(), class, lead);
    let len = changes.len();
    c.log(|| format!("{} bells, {} changes, labels {:?}", n, len, labels));
    for _ in 0..r.range(1, 12) {
        match r.below(6) {
            0 => {
                m.set_lead_end_label();
                labels[0] = Some(LABEL_LEAD_END.to_owned());
                c.count("lead ends labelled");
            }
            1 => {
                let i = if r.chance(1, 3) { usize::MAX - r.below(2) } else { len + r.below(3) };
                let mut m2 = m.clone();
                ensure!(guard(|| m2.set_label(i, None)).is_err(), "set_label({}) of a lead of {} rows", i, len);
                check_labels(r, &m2, &labels)?;
                ensure!(guard(|| m2.set_label(i, Some("x".to_owned()))).is_err(), "set_label({}) of a lead of {} rows", i, len);
                check_labels(r, &m2, &labels)?;
                ensure!(guard(|| m2.get_label(i).is_some()).is_err(), "get_label({}) of a lead of {} rows", i, len);
            }
            _ => {
                let i = if r.bool() { r.below(len) } else { r.below(len.min(2)) };
                let l = some_label(r);
                c.log(|| format!("set_label({}, {:?})", i, l));
                m.set_label(i, l.clone());
                labels[i] = l;
                c.count("labels set");
            }
        }
        check_labels(r, &m, &labels)?;
    }
    check_method(c, &m, &changes, n, &labels)?;
    c.sig(sig_changes(&changes, n) ^ hash_str(&format!("{:?}", labels)));
    Ok(())
}

/* ===== C16: CLASSIFICATION & TITLES ===== */

pub const C16: &[Probe] = &[
    exhaustive("classes-and-titles", 9 * 8 * 46, 9 * 8 * 300, titles),
    exhaustive("class-table", 1, 1, class_table),
    random("designed-hunt-bells", 60_000, |c| {
        let r = &mut c.rng.clone();
        let (changes, n) = designed(r);
        check_class(c, &changes, n)
    }),
    random("symmetric-methods", 25_000, |c| {
        let r = &mut c.rng.clone();
        let (changes, n) = symmetric(r);
        check_class(c, &changes, n)
    }),
    random("random-leads", 25_000, |c| {
        let r = &mut c.rng.clone();
        let n = match r.below(10) {
            0 => r.range(13, 40),
            1 if r.chance(1, 8) => gens::stage(r, 300),
            _ => r.range(1, 8),
        };
        let max = if r.chance(1, 50) { 400 } else { 24 };
        let changes: Vec<Vec<usize>> = (0..r.range(1, max)).map(|_| gens::full_places(r, n)).collect();
        check_class(c, &changes, n)
    }),
    exhaustive("known-methods", KNOWN.len() as u64, KNOWN.len() as u64, known),
];

const CLASSES: [(Class, &str); 9] = [
    (Class::Principle, "Principle"),
    (Class::Place, "Place"),
    (Class::Bob, "Bob"),
    (Class::TrebleBob, "Treble Bob"),
    (Class::Delight, "Delight"),
    (Class::Surprise, "Surprise"),
    (Class::TreblePlace, "Treble Place"),
    (Class::Alliance, "Alliance"),
    (Class::Hybrid, "Hybrid"),
];

fn titles(c: &mut Case) -> R {
    let i = c.idx as usize;
    let (class, name) = CLASSES[i % 9];
    let flags = i / 9 % 8;
    let (j, l, d) = (flags & 1 != 0, flags & 2 != 0, flags & 4 != 0);
    let n = i / 72 + 1;
    let full = FullClass::new(j, l, d, class);
    let m = model::Class { little: l, differential: d, name };
    eq!(full.is_jump(), j, "is_jump");
    eq!(full.is_little(), l, "is_little");
    eq!(full.is_differential(), d, "is_differential");
    eq!(full.class(), class, "class");
    eq!(full.to_string(), model::class_display(&m, j), "display of {:?}", full);
    for meth_name in ["Yorkshire", "", "Bristol Surprise", " ", "Ħ ", "x"] {
        eq!(generate_title(meth_name, full, st(n)), model::title(meth_name, &m, j, n), "title of {:?} {:?} on {} bells", meth_name, full, n);
    }
    let again = FullClass::new(j, l, d, class);
    ensure!(full == again, "equal classes aren't equal");
    for (k, other) in [FullClass::new(!j, l, d, class), FullClass::new(j, !l, d, class), FullClass::new(j, l, !d, class), FullClass::new(j, l, d, CLASSES[(i + 1) % 9].0)]
        .into_iter()
        .enumerate()
    {
        ensure!(full != other, "different classes are equal ({})", k);
    }
    c.sig(i as u64);
    Ok(())
}

fn class_table(c: &mut Case) -> R {
    for (class, name) in CLASSES {
        eq!(class.name(), name, "name");
        eq!(class.to_string(), name, "display");
        let in_title = (name != "Principle" && name != "Hybrid").then_some(name);
        eq!(class.name_in_title(), in_title, "name_in_title of {}", name);
        let plain = ["Place", "Bob"].contains(&name);
        let td = ["Treble Bob", "Delight", "Surprise"].contains(&name);
        eq!(class.is_plain(), plain, "is_plain of {}", name);
        eq!(class.is_treble_dodging(), td, "is_treble_dodging of {}", name);
        eq!(class.is_symmetric_hunter(), plain || td || name == "Treble Place" || name == "Alliance", "is_symmetric_hunter of {}", name);
        let hunt = match name {
            "Place" | "Bob" => Some(HuntBellClass::Plain),
            "Treble Bob" | "Delight" | "Surprise" => Some(HuntBellClass::TrebleDodging),
            "Treble Place" => Some(HuntBellClass::TreblePlace),
            "Alliance" => Some(HuntBellClass::Alliance),
            "Hybrid" => Some(HuntBellClass::Hybrid),
            _ => None,
        };
        eq!(class.hunt_bell_class(), hunt, "hunt_bell_class of {}", name);
        c.count("classes");
        c.sig(hash_str(name));
    }
    let order = [HuntBellClass::Plain, HuntBellClass::TrebleDodging, HuntBellClass::TreblePlace, HuntBellClass::Alliance, HuntBellClass::Hybrid];
    for i in 0..5 {
        for j in 0..5 {
            eq!(order[i].cmp(&order[j]), i.cmp(&j), "order of hunt bell classes");
        }
    }
    Ok(())
}

fn check_class(c: &mut Case, changes: &[Vec<usize>], n: usize) -> R {
    let r = &mut c.rng.clone();
    c.log(|| format!("{} bells, changes {:?}", n, changes));
    let exp = model::classify(changes, n);
    let block: Block = pn_block(changes, n).ok_or("no block")?.to_block_from_rounds();
    let got = FullClass::classify(&block);
    ensure!(!got.is_jump(), "classified as a jump method");
    eq!(got.class().name(), exp.name, "class of the method with changes {:?} on {} bells", changes, n);
    eq!(got.is_little(), exp.little, "littleness of the method with changes {:?} on {} bells", changes, n);
    eq!(got.is_differential(), exp.differential, "differentialness of the method with changes {:?} on {} bells", changes, n);
    eq!(got.to_string(), model::class_display(&exp, false), "full class of the method");
    // Through a method
    let name = *r.pick(&["A", "", "Little", "Brave New"]);
    let m = if r.bool() {
        Method::with_name(name.to_owned(), AnnotBlock::with_default_annots(gens::ssv(n, &lead_rows(changes, n))))
    } else {
        Method::with_lead_end(name.to_owned(), &pn_block(changes, n).unwrap())
    };
    eq!(m.title(), model::title(name, &exp, false, n), "title of the method with changes {:?} on {} bells", changes, n);
    c.count(exp.name);
    if exp.little {
        c.count("little");
    }
    if exp.differential {
        c.count("differential");
    }
    let lh = lead_rows(changes, n).pop().unwrap();
    let hunts = (0..n).filter(|&i| lh[i] == i).count();
    if hunts > 1 {
        c.count("several hunt bells");
    }
    c.sig(sig_changes(changes, n));
    Ok(())
}

/// Fill the places `lo..hi` of a change
fn fill(r: &mut Rng, lo: usize, hi: usize, n: usize, internal: u8, out: &mut Vec<usize>) {
    // internal: 0 = none if possible, 1 = at least one if possible, 2 = whatever
    let len = hi - lo;
    match internal {
        0 => {
            if len % 2 == 1 {
                // One place is needed, so make it external if possible
                if lo == 0 {
                    out.push(0);
                } else if hi == n {
                    out.push(n - 1);
                } else {
                    out.push(lo + r.below(len / 2 + 1) * 2);
                }
            } else if len > 1 && lo == 0 && hi == n && r.chance(1, 3) {
                out.push(0);
                out.push(n - 1);
            }
        }
        _ => {
            let stick = if internal == 1 { 2 } else { r.range(1, 5) };
            let mut i = lo;
            while i < hi {
                if i + 1 == hi || r.chance(1, stick) {
                    out.push(i);
                    i += 1;
                } else {
                    i += 2;
                }
            }
        }
    }
}

/// The change which moves the bell in place `p` to place `q`
fn change_moving(r: &mut Rng, p: usize, q: usize, n: usize, internal: u8) -> Vec<usize> {
    let mut out = vec![];
    let (lo, hi) = (p.min(q), p.max(q) + 1);
    if p == q {
        out.push(p);
    }
    fill(r, 0, lo, n, internal, &mut out);
    fill(r, hi, n, n, internal, &mut out);
    out.sort();
    out
}

/// A cyclic path for a hunt bell
fn hunt_path(r: &mut Rng, n: usize) -> Vec<usize> {
    // The range of places covered
    let (lo, hi) = if r.chance(2, 3) {
        (0, n - 1)
    } else {
        let a = r.below(n);
        let b = r.below(n);
        (a.min(b), a.max(b))
    };
    let mut path: Vec<usize> = match r.below(8) {
        // Plain hunting
        0 => (lo..=hi).chain((lo..=hi).rev()).collect(),
        // Treble dodging, with some number of dodges
        1 | 2 => {
            let dodges = r.range(1, 2);
            let mut half = vec![];
            let mut p = lo;
            while p + 1 <= hi {
                for _ in 0..=dodges {
                    half.push(p);
                    half.push(p + 1);
                }
                p += 2;
            }
            if half.is_empty() {
                half.push(lo);
            }
            let mut full = half.clone();
            full.extend(half.into_iter().rev());
            full
        }
        // Treble dodging in which the dodges vary
        3 => {
            let mut half = vec![];
            let mut p = lo;
            while p + 1 <= hi {
                for _ in 0..r.range(1, 3) {
                    half.push(p);
                    half.push(p + 1);
                }
                p += 2;
            }
            if half.is_empty() {
                half.push(lo);
            }
            let mut full = half.clone();
            full.extend(half.into_iter().rev());
            full
        }
        // Treble place: the same number of blows in every place
        4 => {
            let k = r.range(1, 3);
            let mut half = vec![];
            if r.bool() {
                for p in lo..=hi {
                    half.extend(std::iter::repeat(p).take(k));
                }
            } else {
                // Places & dodges mixed
                let mut p = lo;
                while p <= hi {
                    if p + 1 <= hi && r.bool() {
                        half.extend([p, p + 1, p, p + 1]);
                        p += 2;
                    } else {
                        half.extend([p, p]);
                        p += 1;
                    }
                }
            }
            let mut full = half.clone();
            full.extend(half.into_iter().rev());
            full
        }
        // Stationary
        5 => vec![lo; r.range(1, 12)],
        // Palindromic walks
        6 => {
            let mut half = vec![r.range(lo, hi)];
            for _ in 0..r.range(1, 8) {
                let p = *half.last().unwrap();
                half.push(step(r, p, lo, hi));
            }
            let mut full = half.clone();
            let skip = r.below(2);
            let skip_end = r.below(2);
            let l = half.len();
            full.extend(half.into_iter().take(l - skip).skip(skip_end).rev());
            full
        }
        // Random walks
        _ => {
            let start = r.range(lo, hi);
            let mut path = vec![start];
            for _ in 0..r.range(1, 14) {
                let p = *path.last().unwrap();
                path.push(step(r, p, lo, hi));
            }
            // Walk back to the start
            while path.last().unwrap().abs_diff(start) > 1 {
                let p = *path.last().unwrap();
                path.push(if p < start { p + 1 } else { p - 1 });
            }
            path
        }
    };
    // Small deformations
    if r.chance(1, 8) && path.len() > 2 {
        let i = r.below(path.len());
        let p = path[i];
        match r.below(2) {
            0 => path.insert(i, p),
            _ => {
                let q = step(r, p, lo, hi);
                path.insert(i, q);
                path.insert(i, p);
            }
        }
    }
    let k = r.below(path.len());
    if r.bool() {
        path.rotate_left(k);
    }
    path
}

fn step(r: &mut Rng, p: usize, lo: usize, hi: usize) -> usize {
    match r.below(5) {
        0 => p,
        1 | 2 => (p + 1).min(hi),
        _ => {
            if p > lo {
                p - 1
            } else {
                p
            }
        }
    }
}

/// A lead in which some bell has a chosen path
fn designed(r: &mut Rng) -> (Vec<Vec<usize>>, usize) {
    let n = match r.below(12) {
        0 => r.range(9, 17),
        1..=5 => r.range(6, 8),
        _ => r.range(1, 6),
    };
    let path = hunt_path(r, n);
    let l = path.len();
    let lo = *path.iter().min().unwrap();
    // How internal places are made when the bell passes from one dodging position to another, and
    // otherwise
    let (cross_mode, mode) = (*r.pick(&[0, 0, 1, 1, 2]), *r.pick(&[0, 2, 2]));
    let odd_one_out = r.chance(1, 3).then(|| r.below(l));
    let mut changes: Vec<Vec<usize>> = vec![];
    let sym = r.bool();
    for i in 0..l {
        let (p, q) = (path[i], path[(i + 1) % l]);
        let crossing = (p - lo) / 2 != (q - lo) / 2;
        let mut internal = if crossing { cross_mode } else { mode };
        if odd_one_out == Some(i) {
            internal = *r.pick(&[0, 1, 2]);
        }
        let change = change_moving(r, p, q, n, internal);
        changes.push(change);
        // Sometimes, mirror the change if it's compatible with the path
        if sym && i > l / 2 {
            let j = l - 1 - i;
            let mirror = (l / 2).checked_sub(1).map_or(j, |_| j);
            let cand = changes[mirror % l].clone();
            if model::pn_perm(&cand, n)[q] == p {
                changes[i] = cand;
            }
        }
    }
    (changes, n)
}

/// Symmetric methods (and multiples of leads, to get many hunt bells)
fn symmetric(r: &mut Rng) -> (Vec<Vec<usize>>, usize) {
    let n = match r.below(10) {
        0 => r.range(9, 16),
        _ => r.range(2, 8),
    };
    let mut half: Vec<Vec<usize>> = vec![];
    match r.below(3) {
        // Plain hunt, modified
        0 => {
            for i in 0..n.max(2) - 1 {
                half.push(if n % 2 == 0 {
                    if i % 2 == 0 {
                        vec![]
                    } else {
                        vec![0, n - 1]
                    }
                } else if i % 2 == 0 {
                    vec![n - 1]
                } else {
                    vec![0]
                });
            }
        }
        1 => {
            for _ in 0..r.range(1, 10) {
                half.push(gens::full_places(r, n));
            }
        }
        _ => {
            for i in 0..r.range(1, 16) {
                half.push(if i % 2 == 0 && n % 2 == 0 { vec![] } else { gens::full_places(r, n) });
            }
        }
    }
    for _ in 0..r.below(3) {
        let i = r.below(half.len());
        half[i] = gens::full_places(r, n);
    }
    let (hl, le) = (gens::full_places(r, n), gens::full_places(r, n));
    let mut lead = half.clone();
    lead.push(hl);
    lead.extend(half.into_iter().rev());
    lead.push(le);
    let rows = lead_rows(&lead, n);
    let o = model::order(rows.last().unwrap()) as usize;
    if r.chance(1, 4) && o * lead.len() <= 300 {
        // The whole course as a lead, or some of it
        let k = if r.bool() { o } else { r.range(1, o) };
        let mut all = vec![];
        for _ in 0..k {
            all.extend(lead.iter().cloned());
        }
        return (all, n);
    }
    (lead, n)
}

/// Well known methods, with their titles in the Central Council's library
const KNOWN: [(&str, usize, &str, &str); 21] = [
    ("Plain", 8, "x1x1x1x1,2", "Plain Bob Major"),
    ("Plain", 5, "5.1.5.1.5,125", "Plain Bob Doubles"),
    ("", 6, "-16-14,12", "Little Bob Minor"),
    ("Grandsire", 5, "3,1.5.1.5.1", "Grandsire Bob Doubles"),
    ("Grandsire", 7, "3,1.7.1.7.1.7.1", "Grandsire Bob Triples"),
    ("St Clement's College", 6, "-16-36-36,12", "St Clement's College Bob Minor"),
    ("Canterbury Pleasure", 6, "-16-16-16,12", "Canterbury Pleasure Bob Minor"),
    ("Cambridge", 6, "-36-14-12-36-14-56,12", "Cambridge Surprise Minor"),
    ("Cambridge", 8, "-38-14-1258-36-14-58-16-78,12", "Cambridge Surprise Major"),
    ("Bristol", 8, "-58-14.58-58.36.14-14.58-14-18,18", "Bristol Surprise Major"),
    ("Kent", 6, "34-34.16-12-16-12-16,16", "Kent Treble Bob Minor"),
    ("Oxford", 6, "-34-16-12-16-12-16,16", "Oxford Treble Bob Minor"),
    ("Stedman", 7, "3.1.7.3.1.3,1", "Stedman Triples"),
    ("Stedman", 5, "3.1.5.3.1.3,1", "Stedman Doubles"),
    ("Erin", 7, "+3.1.7.1.7.3", "Erin Triples"),
    ("London", 6, "36-36.14-12-36.14-14.36,12", "London Surprise Minor"),
    ("Wells", 6, "36-36.14-12-36.14-14.36,16", "Wells Surprise Minor"),
    ("Double Court", 6, "-14-36-16,16", "Double Court Bob Minor"),
    ("Reverse Canterbury Pleasure Place", 5, "345.1.5.1.5,1", "Reverse Canterbury Pleasure Place Place Doubles"),
    ("Original", 6, "+-16", "Original Minor"),
    ("Cross", 2, "x", "Cross Two"),
];

/// Methods whose class can be looked up.  The model has to agree too.
fn known(c: &mut Case) -> R {
    let (name, n, pn, title) = KNOWN[c.idx as usize];
    let Ok(changes) = model::parse_block(pn, n) else {
        return Err(format!("bad known method {:?}", pn));
    };
    let exp = model::title(name, &model::classify(&changes, n), false, n);
    let m = Method::from_place_not_string(name.to_owned(), st(n), pn).map_err(|e| format!("{:?}: {}", pn, e))?;
    c.log(|| format!("{} {:?}: {:?} (model: {:?})", n, pn, m.title(), exp));
    eq!(m.title(), exp, "title of {:?} on {} bells", pn, n);
    eq!(m.title(), title, "title of {:?} on {} bells (from the methods library)", pn, n);
    c.sig(c.idx);
    check_class(c, &changes, n)
}
