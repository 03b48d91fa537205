//! C26: the same question always gets the same answer.
//!
//! A case is a pool of values, which are related to each other (rows which share their start or end, one text
//! read at several stages, ...) and a list of calls on them.  All the calls are made in several orders, on
//! several threads which use the same values at the same time, and on copies of the values.  No model is needed:
//! the oracle compares the answers to every call.  (Under ThreadSanitizer, races are reported as well.)

use std::{
    fmt::Write,
    marker::PhantomData,
    sync::atomic::{AtomicUsize, Ordering},
};

use bellframe::{
    mask::Mask, method::class::FullClass, music::Regex, row::RowAccumulator, AnnotBlock, Bell, Call, IncompatibleStages, Method, MethodLib, Parity,
    PlaceNot, PnBlock, Row, RowBuf, SameStageVec, Stage,
};

use crate::{
    ensure,
    ctx::{self, exhaustive, guard, random, Case, Probe, R},
    gens::{self, rb, st},
    model,
    rng::{hash_str, mix, Rng},
};

pub const C26: &[Probe] = &[
    exhaustive("types-can-be-shared", 1, 1, shared_types),
    random("calls-in-other-orders", 6_000, |c| calls(c, 0)),
    random("calls-on-threads", 6_000, |c| calls(c, 3)),
    random("calls-on-many-threads", 200, |c| calls(c, 12)),
    random("calls-within-calls", 4_000, calls_within),
];

/* ===== WHETHER VALUES CAN BE SHARED AT ALL ===== */

struct IsShared<T: ?Sized>(PhantomData<T>);

trait NotShared {
    const SEND: bool = false;
    const SYNC: bool = false;
}

impl<T: ?Sized> NotShared for IsSend<T> {}
impl<T: ?Sized> NotShared for IsShared<T> {}

struct IsSend<T: ?Sized>(PhantomData<T>);

impl<T: ?Sized + Send> IsSend<T> {
    const SEND: bool = true;
}

impl<T: ?Sized + Sync> IsShared<T> {
    const SYNC: bool = true;
}

fn shared_types(c: &mut Case) -> R {
    macro_rules! all {
        ($($t:ty,)*) => {
            $(
                ensure!(<IsSend<$t>>::SEND, "a {} can't be sent to another thread", stringify!($t));
                ensure!(<IsShared<$t>>::SYNC, "a {} can't be shared between threads", stringify!($t));
                c.count("types");
                c.sig(hash_str(stringify!($t)));
            )*
        };
    }
    all! {
        Bell, Stage, Parity, Row, RowBuf, RowAccumulator, SameStageVec, AnnotBlock<()>, AnnotBlock<String>, PlaceNot, PnBlock, Call, Mask,
        Regex, Method, MethodLib, FullClass, IncompatibleStages, bellframe::InvalidRowError, bellframe::place_not::ParseError,
        bellframe::place_not::PnBlockParseError, bellframe::block::RepeatIter<'static, String>, bellframe::row::same_stage_vec::Iter<'static>,
    }
    Ok(())
}

/* ===== CALLS ===== */

/// The values which all the calls are about
#[derive(Clone)]
pub struct Pool {
    pub stages: Vec<usize>,
    pub rows: Vec<RowBuf>,
    pub row_texts: Vec<String>,
    pub pn_texts: Vec<String>,
    pub pns: Vec<PlaceNot>,
    pub pn_blocks: Vec<PnBlock>,
    pub vecs: Vec<SameStageVec>,
    pub blocks: Vec<AnnotBlock<String>>,
    pub regex_texts: Vec<String>,
    pub regexes: Vec<Regex>,
    pub masks: Vec<Mask>,
    pub methods: Vec<Method>,
    pub titles: Vec<String>,
    pub libs: Vec<MethodLib>,
    pub jsons: Vec<String>,
}

/// If any of these types can't be shared, `types-can-be-shared` says so
struct AssertShared<T>(T);
unsafe impl<T> Sync for AssertShared<T> {}
unsafe impl<T> Send for AssertShared<T> {}

pub fn pool(r: &mut Rng, small: bool) -> Pool {
    // (Interpreters are thousands of times slower)
    let n = if small {
        r.range(1, 5)
    } else if r.chance(1, 10) {
        r.range(17, 40)
    } else {
        r.range(1, 10)
    };
    let m = n + 2;
    let stages = vec![n, m, n + 1, n.saturating_sub(1).max(1), n.saturating_sub(2).max(1)];
    // Rows which have a lot in common
    let a = gens::perm(r, n);
    let mut rows = vec![rb(&a)];
    if n > 1 {
        for (i, j) in [(n - 2, n - 1), (0, 1), (r.below(n), r.below(n))] {
            let mut b = a.clone();
            b.swap(i, j);
            rows.push(rb(&b));
        }
    }
    rows.push(rb(&model::inv(&a)));
    rows.push(RowBuf::rounds(st(n)));
    rows.push(rb(&gens::perm(r, n)));
    let mut covered = a.clone();
    covered.extend([n, n + 1]);
    rows.push(rb(&covered));
    rows.push(rb(&gens::perm(r, m)));
    if a.last() == Some(&(n - 1)) && n > 1 {
        rows.push(rb(&a[..n - 1]));
    }
    let name = |i: usize| model::NAMES.chars().nth(i).unwrap_or('x');
    let mut row_texts: Vec<String> = rows.iter().map(|r| r.to_string()).collect();
    row_texts.push(a[..n / 2].iter().map(|&b| name(b)).collect());
    row_texts.push(gens::text(r, 8));
    // Changes, and notation of blocks, which is meant for several stages
    let mut pns = Vec::new();
    let mut pn_texts: Vec<String> = vec!["x".to_owned(), "1".to_owned(), "14".to_owned()];
    for _ in 0..4 {
        let full = gens::full_places(r, n);
        pns.push(gens::pn(&full, n));
        let text: String = full.iter().map(|&p| name(p)).collect();
        pn_texts.push(if text.is_empty() { "-".to_owned() } else { text });
        let s = *r.pick(&stages);
        if let Ok(pn) = PlaceNot::parse(pn_texts.last().unwrap(), st(s)) {
            pns.push(pn);
        }
    }
    for _ in 0..4 {
        let k = r.range(1, 6);
        let mut s = String::new();
        for i in 0..k {
            if i > 0 {
                s.push(*r.pick(&['.', '.', '.', ',']));
            }
            s.push_str(pn_texts[r.below(7.min(pn_texts.len()))].as_str());
        }
        pn_texts.push(s);
    }
    let mut pn_blocks = Vec::new();
    for _ in 0..if small { 1 } else { 5 } {
        let k = r.range(1, 8);
        let chosen: Vec<PlaceNot> = (0..k).map(|_| r.pick(&pns).clone()).filter(|p| p.stage() == st(n)).collect();
        if let Ok(b) = PnBlock::from_vec(chosen.clone()) {
            pn_blocks.push(b);
        }
        // The same changes in another order
        if let Ok(b) = PnBlock::from_vec(chosen.into_iter().rev().collect()) {
            pn_blocks.push(b);
        }
    }
    let mut vecs = Vec::new();
    let mut blocks = Vec::new();
    for _ in 0..3 {
        let k = r.range(1, 6);
        let v = gens::ssv(n, &(0..k).map(|_| gens::perm(r, n)).collect::<Vec<_>>());
        blocks.push(AnnotBlock::with_annots_from_indices(v.clone(), |i| format!("{}", i % 3)).unwrap());
        vecs.push(v);
    }
    blocks.extend(pn_blocks.iter().take(2).map(|b| b.to_block_from_rounds::<String>()));
    let mut regex_texts = vec!["*".to_owned(), gens::text(r, 8)];
    for _ in 0..3 {
        regex_texts.push(a.iter().map(|&b| if r.chance(2, 3) { name(b) } else { *r.pick(&['*', 'x', '.']) }).collect());
    }
    let regexes = regex_texts.iter().map(|s| Regex::parse(s)).collect();
    let mut masks = vec![Mask::empty(st(n)), Mask::full_row(&rows[0])];
    for _ in 0..4 {
        let mut mask = Mask::empty(st(if r.chance(1, 6) { m } else { n }));
        for (p, &b) in a.iter().enumerate() {
            if r.bool() {
                let _ = mask.set_bell(gens::bell(b), p);
            }
        }
        masks.push(mask);
    }
    let methods: Vec<Method> = pn_blocks
        .iter()
        .take(6)
        .filter(|_| n < 17)
        .map(|b| {
            let mut method = Method::with_name("Name".to_owned(), b.to_block_from_rounds());
            for _ in 0..r.below(3) {
                method.set_label(r.below(b.len()), Some(r.pick(&["LE", "A", ""]).to_string()));
            }
            method
        })
        .collect();
    let mut titles = vec!["Plain Bob Minor".to_owned(), "plain bob Major".to_owned(), gens::text(r, 10), "Minor".to_owned()];
    let mut jsons = Vec::new();
    for lib in 0..if small { r.below(2) } else { 2 } {
        let stage = *r.pick(&[6, 8]);
        let names = ["Plain", "Plane", "Cambridge", "", "A", "Bob Plain"];
        let ms: Vec<String> = (0..r.below(5)).map(|_| format!(r#"{{"n":"{}","p":"{}"}}"#, r.pick(&names), r.pick(&["x16x16x16,12", "x1,1", "x18", "?"]))).collect();
        jsons.push(format!(r#"{{"groups":[{{"s":{},"c":{},"m":[{}]}}]}}"#, stage, r.range(0, 2) + lib, ms.join(",")));
        titles.push(format!("{} Bob {}", r.pick(&names), st(stage)));
        titles.push(format!("{} {}", r.pick(&names), st(stage)));
    }
    jsons.push(gens::text(r, 6));
    let libs = jsons.iter().filter_map(|j| MethodLib::from_json(j).ok()).collect();
    Pool { stages, rows, row_texts, pn_texts, pns, pn_blocks, vecs, blocks, regex_texts, regexes, masks, methods, titles, libs, jsons }
}

/// What the values in the pool are.  (Only their contents: there could be more to their `Debug` texts)
fn contents(p: &Pool) -> String {
    if ctx::small() {
        return String::new(); // This takes seconds
    }
    let mut s = format!("{:?} {:?} {:?}", p.rows, p.vecs, p.masks.iter().map(|m| m.to_string()).collect::<Vec<_>>());
    for pn in &p.pns {
        let _ = write!(s, " {:?} {}", gens::pn_places(pn), pn.stage().num_bells());
    }
    for b in &p.pn_blocks {
        let _ = write!(s, " {:?}", b.place_nots().map(gens::pn_places).collect::<Vec<_>>());
    }
    for b in &p.blocks {
        let _ = write!(s, " {}", block(b));
    }
    for x in &p.regexes {
        let _ = write!(s, " {:?}", x.elems());
    }
    for m in &p.methods {
        let _ = write!(s, " {}", method(m));
    }
    for l in &p.libs {
        s.push_str(&library(l));
    }
    s
}

pub fn block<A: std::fmt::Debug>(b: &AnnotBlock<A>) -> String {
    format!("{:?}/{:?}/{:?}", b.stage().num_bells(), b.row_vec(), b.annots().collect::<Vec<_>>())
}

pub fn method(m: &Method) -> String {
    format!("{:?} {:?} {}", m.title(), m.name(), block(m.first_lead()))
}

fn library(l: &MethodLib) -> String {
    // The order of groups, and of the methods in them, is up to a `HashMap`
    let json: serde_json::Value = match serde_json::from_str(&l.to_json().unwrap_or_default()) {
        Ok(j) => j,
        Err(e) => return e.to_string(),
    };
    let mut all = Vec::new();
    for group in json["groups"].as_array().into_iter().flatten() {
        for m in group["m"].as_array().into_iter().flatten() {
            all.push(format!("{}/{}/{}/{}/{} {}", group["s"], group["c"], group["j"], group["l"], group["d"], m));
        }
    }
    all.sort();
    all.join(";")
}

pub const KINDS: usize = 44;

pub fn pick<T>(v: &[T], i: usize) -> Option<&T> {
    if v.is_empty() {
        None
    } else {
        Some(&v[i % v.len()])
    }
}

/// Make a call, and describe what it answers
pub fn call(p: &Pool, (kind, i, j, k): (usize, usize, usize, usize)) -> Option<String> {
    let a = pick(&p.rows, i)?;
    let b = pick(&p.rows, j)?;
    let stage = st(*pick(&p.stages, j)?);
    Some(match kind {
        0 => format!("{:?} {:?}", a.mul_result(b), b.mul_result(a)),
        1 => format!("{:?}", a.inv()),
        2 => {
            let mut out = pick(&p.rows, k)?.clone();
            let x = a.mul_into(b, &mut out);
            format!("{:?} {:?}", x, out)
        }
        3 => {
            let mut out = pick(&p.rows, k)?.clone();
            let x = a.mul_into_row(b, &mut out);
            format!("{:?} {:?}", x, out)
        }
        4 => format!("{:?}", a.clone().parity()),
        5 => format!("{:?}", (a.is_rounds(), a.is_backrounds(), a.effective_stage(), a.fixed_bells().collect::<Vec<_>>())),
        6 => format!("{:?}", a.pow_i(k as isize - 5)),
        7 if p.stages[0] < 17 => format!("{:?}", (a.closure(), b.closure_from_rounds())),
        8 => format!("{:?}", (Row::solve_ax_equals_b(a, b), Row::solve_xa_equals_b(a, b), a.tranposition_to(b))),
        9 => format!("{:?}", (a.place_of(gens::bell(k)), a.fast_hash(), a.to_string())),
        10 if p.stages[0] < 6 => {
            let mut all: Vec<RowBuf> = Row::least_group_containing([&**a, &**b]).map(|s| s.into_iter().collect()).unwrap_or_default();
            all.sort();
            format!("{:?}", all)
        }
        11 => {
            let closure: Vec<RowBuf> = if p.stages[0] < 9 { a.closure() } else { vec![a.clone()] };
            // (If stages differ, which two of them are reported is up to a `HashSet`)
            format!("{:?}", (Row::is_group(closure.iter().map(|r| &**r)), Row::is_group([&**a, &**b]).ok(), Row::is_group([&**a, &a.inv()])))
        }
        12 => format!("{:?}", RowBuf::parse(pick(&p.row_texts, i)?)),
        13 => format!("{:?}", RowBuf::parse_with_stage(pick(&p.row_texts, i)?, stage)),
        14 => format!("{:?}", (RowBuf::rounds(stage), RowBuf::backrounds(stage), RowBuf::queens(stage))),
        15 => {
            let mut acc = RowAccumulator::new(a.clone());
            let x = (acc.accumulate(b), acc.pre_accumulate(pick(&p.rows, k)?));
            format!("{:?} {:?}", x, acc.into_total())
        }
        16 => format!("{:?}", (a.cmp(b), a == b)),
        17 => format!("{:?}", Row::multi_cartesian_product([vec![a, b], vec![pick(&p.rows, k)?, a]])),
        18 => format!("{:?}", SameStageVec::parse(&format!("{}\n{}", pick(&p.row_texts, i)?, pick(&p.row_texts, j)?))),
        19 => {
            let mut v = pick(&p.vecs, k)?.clone();
            let x = (v.push(a), v.extend_transposed(b, pick(&p.vecs, i)?), v.pre_multiply(a));
            format!("{:?} {:?}", x, v)
        }
        20 => {
            let v = pick(&p.vecs, i)?;
            format!("{:?}", (v.pre_multiplied(b), v.path_of(gens::bell(k)), v.clone().split(k % 5)))
        }
        21 => {
            let v = pick(&p.vecs, i)?;
            format!("{:?}", (v.len(), v.get(k % 7), v.first(), v.last(), v.iter().rev().nth(k % 3), pick(&p.vecs, j)? == v))
        }
        22 => {
            let x = pick(&p.blocks, i)?;
            let y = pick(&p.blocks, j)?;
            let mut z = x.clone();
            let e = z.extend(y);
            format!("{:?} {} {:?}", e, block(&z), x == y)
        }
        23 => {
            let mut x = pick(&p.blocks, i)?.clone();
            x.extend_from_within(..);
            format!("{} {:?}", block(&x), x.path_of(gens::bell(k)))
        }
        24 => {
            let x = pick(&p.blocks, i)?;
            match x.repeat_iter(b.clone()) {
                Ok(it) => format!("{:?}", it.skip(k % 4).take(6).collect::<Vec<_>>()),
                Err(e) => format!("{:?}", e),
            }
        }
        25 => {
            let x = pick(&p.blocks, i)?;
            format!("{:?}", (x.effective_stage(), x.leftover_row(), x.get_annot(k % 4), x.clone().split(k % 4).map(|(a, b)| (block(&a), block(&b)))))
        }
        26 => match PlaceNot::parse(pick(&p.pn_texts, i)?, stage) {
            Ok(pn) => format!("{:?} {:?} {:?}", gens::pn_places(&pn), pn.transposition(), pn.permute_new(a)),
            Err(e) => format!("{:?} {}", e, e),
        },
        27 => match PnBlock::parse(pick(&p.pn_texts, i)?, stage) {
            Ok(b) => format!("{:?} {:?}", b.place_nots().map(gens::pn_places).collect::<Vec<_>>(), b.to_rows(a.clone())),
            Err(e) => format!("{:?} {}", e, e),
        },
        28 => {
            let pn = pick(&p.pns, i)?;
            format!("{:?}", (pn.transposition(), pn.permute_new(b), pn.has_internal_places(), pn.is_cross(), pn.to_string(), pn.contains(k % 9)))
        }
        29 => format!("{:?}", PlaceNot::pn_between(a, b).map(|p| (gens::pn_places(&p), p.stage()))),
        30 => {
            let x = pick(&p.pn_blocks, i)?;
            let blk: AnnotBlock<()> = x.to_block_from_rounds();
            format!("{} {:?} {:?}", block(&blk), x.to_rows(b.clone()), x == pick(&p.pn_blocks, j)?)
        }
        31 => {
            let x = pick(&p.pn_blocks, i)?;
            let c = Call::le_bob(x.clone());
            format!("{:?}", (c.cover_len(), c.len(), c.stage(), c.effective_stage(), c.transposition(), c.location(), c.notation()))
        }
        32 => {
            let x = pick(&p.regexes, i)?;
            format!("{:?}", (x.matches(b), x.match_pattern(b), x.num_matching_rows(stage), x.to_string()))
        }
        33 => format!("{:?}", Regex::parse(pick(&p.regex_texts, i)?).elems()),
        34 => format!("{:?}", (Regex::runs(stage, 1 + k % 4, i % 2 == 0), Regex::runs(stage, 1 + k % 4, i % 2 == 1))),
        35 => {
            let (x, y) = (pick(&p.masks, i)?, pick(&p.masks, j)?);
            format!("{:?}", (x.matches(a), x.place_of(gens::bell(k)), x.as_row(), x.is_empty(), x.to_string(), x == y))
        }
        36 => {
            let (x, y) = (pick(&p.masks, i)?, pick(&p.masks, j)?);
            if x.stage() != y.stage() {
                return None;
            }
            format!("{:?}", (x.is_subset_of(y), x.is_compatible_with(y), x.combine(y).map(|m| m.to_string())))
        }
        37 => {
            let m = pick(&p.methods, i)?;
            let x = m.plain_course();
            let annots: Vec<_> = x.annots().map(|a| (a.sub_lead_idx(), a.label())).collect();
            format!("{:?} {:?} {:?}", x.row_vec(), annots, m.row_in_plain_course(k))
        }
        38 => {
            let m = pick(&p.methods, i)?;
            let mut m2 = m.clone();
            m2.set_label(k % m.lead_len(), if j % 2 == 0 { None } else { Some("A".to_owned()) });
            let of = |m: &Method| ["A", "LE", ""].map(|l| m.label_indices(l).collect::<Vec<_>>());
            format!("{:?} {:?} {:?} {:?}", of(m), of(&m2), of(m), m.get_label(k % m.lead_len()))
        }
        39 => {
            let x = pick(&p.pn_blocks, i)?;
            if p.stages[0] >= 17 {
                return None;
            }
            let m = Method::with_name("Name".to_owned(), x.to_block_from_rounds());
            format!("{:?}", (m.title(), FullClass::classify(m.first_lead())))
        }
        40 => {
            let lib = pick(&p.libs, i)?;
            match lib.get_by_title(pick(&p.titles, j)?) {
                Ok(m) => method(&m),
                Err(e) => format!("{:?}", e),
            }
        }
        41 => {
            let lib = pick(&p.libs, i)?;
            match lib.get_by_title_with_suggestions(pick(&p.titles, j)?, k % 5) {
                Ok(m) => method(&m),
                // (Which of several titles at the same distance comes first isn't specified)
                Err(bellframe::method_lib::QueryError::NotFound(s)) => format!("{:?}", s.iter().map(|x| x.1).collect::<Vec<_>>()),
                Err(e) => format!("{:?}", e),
            }
        }
        42 => match MethodLib::from_json(pick(&p.jsons, i)?) {
            Ok(l) => library(&l),
            Err(e) => format!("{}", e),
        },
        43 => format!(
            "{:?}",
            (stage.name(), stage.to_string(), Stage::from_lower_case_name("minor"), Bell::from_name(model::NAMES.chars().nth(k)?), stage.bells().collect::<Vec<_>>())
        ),
        _ => return None,
    })
}

fn answer(p: &Pool, q: (usize, usize, usize, usize)) -> String {
    match guard(|| call(p, q)) {
        Ok(Some(s)) => s,
        Ok(None) => "nothing to ask".to_owned(),
        Err(_) => "panic".to_owned(),
    }
}

fn calls(c: &mut Case, num_threads: usize) -> R {
    if ctx::small() && num_threads != 3 {
        return Ok(());
    }
    let r = &mut c.rng.clone();
    let p = pool(r, ctx::small());
    let before = contents(&p);
    // Few kinds of calls each time, so that the same functions are used over and over
    let kinds: Vec<usize> = (0..r.range(1, 6)).map(|_| r.below(KINDS)).collect();
    let len = if ctx::small() { 5 } else { r.range(8, 40) };
    let mut questions: Vec<(usize, usize, usize, usize)> = Vec::new();
    for _ in 0..len {
        let q = match questions.last() {
            // Something similar to what was asked last
            Some(&(k, i, j, l)) if r.bool() => match r.below(3) {
                0 => (k, r.below(12), j, l),
                1 => (k, i, r.below(12), l),
                _ => (k, i, j, r.below(12)),
            },
            _ => (*r.pick(&kinds), r.below(12), r.below(12), r.below(12)),
        };
        questions.push(q);
    }
    c.log(|| format!("{:?}", p.rows));
    let answers: Vec<String> = questions.iter().map(|&q| answer(&p, q)).collect();
    let differs = |c: &mut Case, i: usize, got: &str, when: &str| -> R {
        let (k, ..) = questions[i];
        c.log(|| format!("pool: {}", before));
        c.log(|| format!("{:?} & {:?} & {:?} & stages {:?}", p.pn_texts, p.row_texts, p.regex_texts, p.stages));
        Err(format!("question {} (kind {}, {:?}) was answered {:?}, but {:?} {}", i, k, questions[i], answers[i], got, when))
    };
    let mut orders: Vec<Vec<usize>> = Vec::new();
    for _ in 0..num_threads.max(3) {
        orders.push(gens::perm(r, questions.len()));
    }
    orders[0] = (0..questions.len()).rev().collect();
    for order in &orders[..if ctx::small() { 1 } else { 3 }] {
        let copy = if r.bool() { Some(p.clone()) } else { None };
        for &i in order {
            let got = answer(copy.as_ref().unwrap_or(&p), questions[i]);
            if got != answers[i] {
                return differs(c, i, &got, if copy.is_some() { "on copies of the values" } else { "in another order" });
            }
        }
        c.count_n("answers compared", order.len() as u64);
    }
    if num_threads > 0 {
        // All the threads start at about the same time.  (Atomics are all that's needed, so the instruments
        // aren't told about any other order between the threads)
        let ready = AtomicUsize::new(0);
        let shared = AssertShared((&p, &questions));
        let results: Vec<Result<Vec<String>, _>> = std::thread::scope(|s| {
            let handles: Vec<_> = orders
                .iter()
                .take(num_threads)
                .map(|order| {
                    let (shared, ready) = (&shared, &ready);
                    s.spawn(move || {
                        ready.fetch_add(1, Ordering::Relaxed);
                        while ready.load(Ordering::Relaxed) < num_threads {
                            std::thread::yield_now();
                        }
                        let (p, questions) = shared.0;
                        order.iter().map(|&i| answer(p, questions[i])).collect()
                    })
                })
                .collect();
            handles.into_iter().map(|h| h.join()).collect()
        });
        for (order, result) in orders.iter().zip(results) {
            let got = result.map_err(|_| "a thread panicked".to_owned())?;
            for (&i, got) in order.iter().zip(&got) {
                if *got != answers[i] {
                    return differs(c, i, got, "on another thread");
                }
            }
            c.count_n("answers compared between threads", order.len() as u64);
        }
        c.count_n("threads", num_threads as u64);
    }
    let after = contents(&p);
    ensure!(after == before, "the values which were asked about changed, from {} to {}", before, after);
    c.count_n("panics", answers.iter().filter(|a| *a == "panic").count() as u64);
    c.count_n("questions which couldn't be asked", answers.iter().filter(|a| *a == "nothing to ask").count() as u64);
    for (q, a) in questions.iter().zip(&answers) {
        c.sig(mix(hash_str(a)) ^ q.0 as u64);
    }
    Ok(())
}

/* ===== CALLS MADE FROM THE ITERATORS AND CLOSURES GIVEN TO OTHER CALLS ===== */

/// Something to do whenever the library calls back
pub type Hook<'a> = &'a dyn Fn();

/// An annotation whose every trait calls back
struct Ann<'h>(u8, Hook<'h>);

impl Clone for Ann<'_> {
    fn clone(&self) -> Self {
        (self.1)();
        Ann(self.0, self.1)
    }
}

impl PartialEq for Ann<'_> {
    fn eq(&self, other: &Self) -> bool {
        (self.1)();
        self.0 == other.0
    }
}

impl std::fmt::Debug for Ann<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        (self.1)();
        write!(f, "{}", self.0)
    }
}

impl Drop for Ann<'_> {
    fn drop(&mut self) {
        // (Panicking here would abort)
        if !std::thread::panicking() {
            let _ = guard(self.1);
        }
    }
}

/// Something which is a row, and calls back when it's looked at
struct Looked<'h>(RowBuf, Hook<'h>);

impl AsRef<Row> for Looked<'_> {
    fn as_ref(&self) -> &Row {
        (self.1)();
        &self.0
    }
}

pub const OUTER_KINDS: usize = 18;

/// A call which calls `h` over and over
pub fn outer(p: &Pool, (kind, i, j, k): (usize, usize, usize, usize), h: Hook) -> Option<String> {
    let a = pick(&p.rows, i)?;
    let b = pick(&p.rows, j)?;
    let hook = |_: &_| h();
    Some(match kind {
        0 => format!("{:?}", RowBuf::from_bell_iter(a.bell_iter().inspect(|_| h()))),
        1 => {
            let dup: Vec<Bell> = a.bell_iter().chain(b.bell_iter().take(k % 2)).collect();
            format!("{:?}", RowBuf::from_bell_iter(dup.into_iter().inspect(|_| h())))
        }
        2 => {
            let sets = [vec![a.clone(), b.clone()], vec![pick(&p.rows, k)?.clone()], vec![b.clone(), a.clone()]];
            format!("{:?}", Row::multi_cartesian_product(sets.into_iter().inspect(|_| h()).map(|s| s.into_iter().map(|r| Looked(r, h)))))
        }
        3 => format!("{:?}", Row::is_group([&**a, &**b, &a.inv()].into_iter().inspect(|_| h())).ok()),
        4 if p.stages[0] < 6 => {
            let mut all: Vec<RowBuf> =
                Row::least_group_containing([&**a, &**b].into_iter().inspect(hook)).map(|s| s.into_iter().collect()).unwrap_or_default();
            all.sort();
            format!("{:?}", all)
        }
        5 => {
            let mut v = pick(&p.vecs, k)?.clone();
            let x = v.extend(p.rows.iter().take(k).map(|r| Looked(r.clone(), h)));
            format!("{:?} {:?}", x, v)
        }
        6 => {
            let v = pick(&p.vecs, i)?.clone();
            format!(
                "{:?}",
                AnnotBlock::with_annots_from_indices(v, |i| {
                    h();
                    i
                })
                .map(|b| block(&b))
            )
        }
        7 => {
            let x = pick(&p.blocks, i)?.clone();
            let x = x.clone_map_annots_with_index(|i, a| {
                h();
                (i, a)
            });
            let x = x.map_annots_with_index(|i, (j, a)| {
                h();
                (i + j, a)
            });
            let x = x.map_annots(|(n, a)| {
                h();
                format!("{}{}", n, a)
            });
            block(&x)
        }
        8 => {
            let mut x = AnnotBlock::with_annots_from_indices(pick(&p.vecs, i)?.clone(), |i| Ann(i as u8 % 3, h))?;
            let y = AnnotBlock::with_annots_from_indices(pick(&p.vecs, j)?.clone(), |i| Ann(i as u8 % 2, h))?;
            let e = x.extend(&y);
            let e2 = x.extend_range(&y, 0..k % y.len().max(1));
            x.extend_from_within(k % x.len().max(1)..);
            format!("{:?} {:?} {} {:?} {:?}", e, e2, block(&x), x == y, x.clone() == x)
        }
        9 => {
            let x = AnnotBlock::with_annots_from_indices(pick(&p.vecs, i)?.clone(), |i| Ann(i as u8 % 3, h))?;
            let mut out = Vec::new();
            if let Ok(mut it) = x.repeat_iter(b.clone()) {
                for _ in 0..8 {
                    h();
                    out.push(format!("{:?}", it.next()));
                }
            }
            format!("{:?} {:?}", out, x.split(k % 4).map(|(a, b)| (block(&a), block(&b))))
        }
        10 => {
            let x = pick(&p.pn_blocks, i)?;
            let b = PnBlock::from_iter(x.place_nots().cloned().chain(pick(&p.pns, k).cloned()).inspect(|_| h()));
            format!("{:?}", b.map(|b| b.place_nots().map(gens::pn_places).collect::<Vec<_>>()))
        }
        11 => {
            let x = pick(&p.regexes, i)?;
            format!("{:?}", Regex::from_elems(x.elems().iter().copied().inspect(|_| h())).elems())
        }
        12 => {
            let bells: Vec<Bell> = a.bell_iter().step_by(1 + k % 3).collect();
            format!("{}", Mask::fix_bells(a.stage(), bells.into_iter().inspect(|_| h())))
        }
        // Iterators which are used a bit at a time
        13 => {
            let (v, x, m) = (pick(&p.vecs, i)?, pick(&p.blocks, j)?, pick(&p.masks, k)?);
            let (mut rows, mut annot_rows, mut places) = (v.iter(), x.annot_rows(), m.unspecified_places());
            let (mut fixed, mut bells) = (a.fixed_bells(), b.bell_iter());
            let mut out = String::new();
            for n in 0..6 {
                h();
                let _ = write!(out, " {:?}", (rows.next(), places.next(), fixed.next(), bells.next()));
                if let Some(r) = annot_rows.next() {
                    let _ = write!(out, " {:?} {}", r.row(), r.annot());
                }
                if n == k % 5 {
                    rows = rows.clone();
                    let _ = rows.next_back();
                }
            }
            out
        }
        14 => {
            let m = pick(&p.methods, i)?;
            let course = m.plain_course();
            let mut labels = m.label_indices(["A", "LE", ""][k % 3]);
            let mut annots = course.annots();
            let mut out = String::new();
            for _ in 0..10 {
                h();
                let _ = write!(out, " {:?} {:?}", labels.next(), annots.next().map(|a| (a.sub_lead_idx(), a.label())));
            }
            out
        }
        15 => match pick(&p.libs, i)?.get_by_title_with_suggestions(pick(&p.titles, j)?, k % 5) {
            Ok(m) => method(&m),
            Err(e) => format!(
                "{:?}",
                e.map_not_found(|s| {
                    h();
                    s.into_iter().map(|x| x.1).collect::<Vec<_>>()
                })
            ),
        },
        16 => {
            let x = pick(&p.pn_blocks, i)?;
            let mut pns = x.place_nots();
            let mut blk = AnnotBlock::<usize>::empty(x.stage());
            let mut out = String::new();
            while let Some(pn) = pns.next() {
                h();
                let _ = write!(out, " {:?}", pn.transposition());
            }
            for (n, r) in b.closure().into_iter().take(5).enumerate() {
                h();
                if let Some(y) = AnnotBlock::with_annots_from_indices(SameStageVec::from_row_buf(r), |_| n) {
                    let _ = write!(out, " {:?}", blk.extend(&y));
                }
            }
            out + &block(&blk)
        }
        17 => {
            let mut acc = RowAccumulator::new(a.clone());
            let mut out = String::new();
            for r in p.rows.iter().take(k) {
                h();
                let _ = write!(out, "{:?} {:?}", acc.accumulate(r), acc.total());
            }
            out
        }
        _ => return None,
    })
}

fn calls_within(c: &mut Case) -> R {
    if ctx::small() && c.idx > 3 {
        return Ok(());
    }
    let r = &mut c.rng.clone();
    let p = pool(r, ctx::small());
    let before = contents(&p);
    for _ in 0..if ctx::small() { 2 } else { 6 } {
        let o = (r.below(OUTER_KINDS), r.below(12), r.below(12), r.below(12));
        let alone = match guard(|| outer(&p, o, &|| ())) {
            Ok(Some(s)) => s,
            Ok(None) => continue,
            Err(_) => "panic".to_owned(),
        };
        let inner: Vec<(usize, usize, usize, usize)> = (0..3).map(|_| (r.below(KINDS), r.below(12), r.below(12), r.below(12))).collect();
        let expected: Vec<String> = inner.iter().map(|&q| answer(&p, q)).collect();
        // Ask questions, or make the same call again
        let again = r.chance(1, 3);
        let wrong = std::cell::RefCell::new(None);
        let asked = std::cell::Cell::new(0usize);
        let panic_at = if r.chance(1, 3) { Some(r.below(6)) } else { None };
        let got = guard(|| {
            outer(&p, o, &|| {
                let n = asked.get();
                asked.set(n + 1);
                if n < 12 {
                    let i = n % inner.len();
                    let got = answer(&p, inner[i]);
                    if got != expected[i] {
                        *wrong.borrow_mut() = Some(format!("question {:?} was answered {:?}, but {:?} within call {:?}", inner[i], expected[i], got, o));
                    }
                }
                if again && n < 3 {
                    let got = match guard(|| outer(&p, o, &|| ())) {
                        Ok(s) => s.unwrap_or_default(),
                        Err(_) => "panic".to_owned(),
                    };
                    if got != alone {
                        *wrong.borrow_mut() = Some(format!("call {:?} was answered {:?}, but {:?} within itself", o, alone, got));
                    }
                }
                if panic_at == Some(n) {
                    panic!("from within a call");
                }
            })
        });
        c.log(|| format!("{:?} asking {:?} -> {}", o, inner, alone));
        c.count_n("calls within calls", asked.get() as u64);
        if let Some(w) = wrong.into_inner() {
            return Err(w);
        }
        let panicked = panic_at.map_or(false, |n| asked.get() > n);
        match got {
            Ok(s) => {
                let s = s.unwrap_or_default();
                ensure!(s == alone, "call {:?} was answered {:?}, but {:?} with other calls within it", o, alone, s);
            }
            Err(_) if panicked => c.count("calls broken off by a panic"),
            Err(e) => ensure!(alone == "panic", "call {:?} was answered {:?}, but panicked with other calls within it: {}", o, alone, e),
        }
        // A call which was broken off leaves nothing behind
        let now = match guard(|| outer(&p, o, &|| ())) {
            Ok(s) => s.unwrap_or_default(),
            Err(_) => "panic".to_owned(),
        };
        ensure!(now == alone, "call {:?} was answered {:?}, but {:?} after {} calls within it", o, alone, now, if panicked { "a panic and" } else { "" });
        for (&q, e) in inner.iter().zip(&expected) {
            let got = answer(&p, q);
            ensure!(got == *e, "question {:?} was answered {:?}, but {:?} after call {:?} (panicked: {})", q, e, got, o, panicked);
        }
        c.sig(mix(hash_str(&alone)) ^ o.0 as u64);
    }
    let after = contents(&p);
    ensure!(after == before, "the values which were asked about changed, from {} to {}", before, after);
    Ok(())
}
