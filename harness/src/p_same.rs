//! C27: the answers don't depend on the machine or on the build.
//!
//! A case asks questions and records what was answered.  The runner (check.py) makes the same cases run in
//! several builds and, in an interpreter, on several machines (words of 32 or 64 bits, either byte order), and
//! compares the records.  Nothing in this file may depend on the machine or the build, and no question may be
//! asked whose answer legitimately does (see `ask`).

use std::{
    collections::hash_map::DefaultHasher,
    collections::{BTreeSet, HashSet},
    hash::{Hash, Hasher},
};

use bellframe::{
    mask::Mask, method::class::FullClass, music::Regex, row::RowAccumulator, run_len, AnnotBlock, Bell, Block, Call, Method, MethodLib, PlaceNot,
    PnBlock, Row, RowBuf, SameStageVec, Stage,
};
use serde::de::{
    value::{Error, I16Deserializer, I32Deserializer, I64Deserializer, U16Deserializer, U32Deserializer, U64Deserializer, U8Deserializer},
    Deserialize, IntoDeserializer,
};

use crate::{
    ensure,
    ctx::{self, guard, random, Case, Probe, R},
    gens::{self, rb, st},
    model,
    p_pure::{self, pick, Pool},
    rng::{hash_str, Rng},
};

pub const C27: &[Probe] = &[
    random("same-answers-on-small-values", 600, |c| answers(c, true)),
    random("same-answers", 1_500, |c| if ctx::small() { Ok(()) } else { answers(c, false) }),
    random("same-answers-about-numbers", 600, numbers),
    random("same-answers-about-numbers-at-the-limit", 3_000, |c| if ctx::small() || cfg!(target_pointer_width = "32") { Ok(()) } else { limits(c) }),
    random("same-answers-about-texts", 1_500, texts),
    random("same-answers-on-big-stages", 300, big_stages),
    random("numbers-are-never-cut-off", 600, refused),
    random("same-answers-about-groups", 300, groups),
];

/// Ask something, and record the answer
fn ask<T: std::fmt::Debug>(c: &mut Case, what: impl FnOnce() -> String, f: impl FnOnce() -> T) {
    // (What a panic says isn't part of an answer: a debug assertion or an overflow check may come first)
    let answer = match guard(|| format!("{:?}", f())) {
        Ok(s) => s,
        Err(_) => {
            c.count("panics");
            "panic".to_owned()
        }
    };
    let h = hash_str(&answer);
    c.answer(h);
    c.sig(h);
    c.log(|| format!("{} -> {}", what(), answer));
}

/* ===== THE CALLS OF C26 ===== */

fn answers(c: &mut Case, small: bool) -> R {
    let r = &mut c.rng.clone();
    let p = p_pure::pool(r, small);
    for _ in 0..if small { 8 } else { 40 } {
        let q = (r.below(p_pure::KINDS), r.below(12), r.below(12), r.below(12));
        match q.0 {
            // Documented: what a hash is depends on the word size, and so does which counts are too big
            9 => {
                let (Some(a), b) = (pick(&p.rows, q.1), gens::bell(q.3)) else { continue };
                ask(c, || format!("{:?}", q), || (a.place_of(b), a.to_string()));
            }
            32 => {
                let (Some(x), Some(a)) = (pick(&p.regexes, q.1), pick(&p.rows, q.2)) else { continue };
                let s = a.stage();
                let globs = x.elems().iter().filter(|e| matches!(e, bellframe::music::RegexElem::Glob)).count();
                ask(c, || format!("{:?}", q), || (x.matches(a), x.match_pattern(a), x.to_string()));
                if s.num_bells() + globs <= 11 {
                    ask(c, || format!("{:?} (count)", q), || x.num_matching_rows(s));
                }
            }
            _ => ask(c, || format!("{:?}", q), || p_pure::call(&p, q)),
        }
    }
    for _ in 0..if small { 3 } else { 12 } {
        let q = (r.below(p_pure::OUTER_KINDS), r.below(12), r.below(12), r.below(12));
        ask(c, || format!("outer {:?}", q), || p_pure::outer(&p, q, &|| ()));
    }
    for _ in 0..if small { 5 } else { 20 } {
        more(c, r, &p);
    }
    c.log(|| format!("rows {:?} notation {:?} texts {:?} stages {:?}", p.rows, p.pn_texts, p.row_texts, p.stages));
    Ok(())
}

fn hash<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Calls which aren't in `p_pure::call`
fn more(c: &mut Case, r: &mut Rng, p: &Pool) -> Option<()> {
    let (kind, i, j, k) = (r.below(20), r.below(12), r.below(12), r.below(12));
    let a = pick(&p.rows, i)?;
    let b = pick(&p.rows, j)?;
    let d = pick(&p.rows, k)?;
    let what = || format!("more {:?} of {} {} {}", (kind, i, j, k), a, b, d);
    // An index which is past the end of everything, but whose lowest bits may not be
    let huge = gens::two_to(*r.pick(&[8, 16, 31])) + k;
    match kind {
        0 => ask(c, what, || {
            let mut v = p.rows.clone();
            v.sort();
            let set: BTreeSet<RowBuf> = p.rows.iter().cloned().collect();
            let hashed: HashSet<&RowBuf> = p.rows.iter().collect();
            (v, set.len(), hashed.len(), p.rows.iter().max().cloned())
        }),
        1 => ask(c, what, || (hash(a) == hash(b), hash(&**a) == hash(a), hash(&a.inv()) == hash(&b.inv()), a.len_().max(b.len_()) > 9 || a.fast_hash() == b.fast_hash())),
        2 => ask(c, what, || (a.pow_u(k), a.pow_u(huge), a.pow_i(-(k as isize)), a.pow_i(-(0x7fff_ff00 + k as isize)))),
        3 => ask(c, what, || {
            let mut x = (**a).to_owned();
            x.swap(k % a.len_(), j % a.len_());
            x.overwrite_from(d);
            x.extend_to_stage(b.stage());
            x
        }),
        4 => {
            let (v, w) = (pick(&p.vecs, i)?, pick(&p.vecs, j)?);
            ask(c, what, || {
                let mut x = v.clone();
                let e = x.extend_from_buf(w);
                let f = x.extend_range_transposed(b, w, k % 3..);
                let g = x.extend_transposed_from_within(k % 4..=j, a);
                (e, f, g, x.pop(), x)
            });
        }
        5 => {
            let v = pick(&p.vecs, i)?;
            ask(c, what, || (v.get(huge), v.clone().split(huge), v.iter().nth(huge), v.iter().size_hint(), v.iter().rev().skip(huge).next()));
        }
        6 => {
            let x = pick(&p.blocks, i)?;
            ask(c, what, || (x.get_row(huge), x.get_annot(huge), x.clone().split(huge).is_none(), x.annots().nth(huge), x.rows().nth(huge), x.full_path_of(gens::bell(k))));
        }
        7 => {
            let (x, y) = (pick(&p.blocks, i)?, pick(&p.blocks, j)?);
            ask(c, what, || {
                let mut z = x.clone();
                let e = z.extend_range(y, k % 3..huge);
                (e, z.len())
            });
            ask(c, what, || {
                let mut z = x.clone();
                z.extend_from_within(k % 3..=k);
                (p_pure::block(&z), z.stage(), z.pre_multiply(d), z.path_of(gens::bell(0)))
            });
        }
        8 => {
            let pn = pick(&p.pns, i)?;
            ask(c, what, || (pn.contains(huge), pn.is_cross(), PlaceNot::cross(pn.stage()).map(|p| p.to_string()), format!("{:?} {}", pn, pn)));
        }
        9 => {
            let x = pick(&p.pn_blocks, i)?;
            ask(c, what, || {
                let call = Call::new('-', "LE".to_owned(), j, x.to_block_from_rounds());
                let single = Call::le_single(x.clone());
                (call.cover_len(), call.transposition().to_owned(), call.effective_stage(), single.notation(), single.location().to_owned(), format!("{:?}", x.place_nots().map(|p| p.to_string()).collect::<Vec<_>>()))
            });
        }
        10 => {
            let x = pick(&p.masks, i)?;
            ask(c, what, || {
                let mut y = x.clone();
                let e = y.set_bell(gens::bell(j), k);
                let f = y.fix(gens::bell(k));
                (e, f, y.to_string(), y.unspecified_places().collect::<Vec<_>>(), y.matches(a), Mask::parse(&y.to_string()) == y)
            });
        }
        11 => ask(c, what, || (Mask::parse(&p.regex_texts[i % p.regex_texts.len()]).to_string(), Mask::full_row(a).as_row())),
        12 => {
            let s = a.stage();
            ask(c, what, || (Regex::runs_front(s, k), Regex::runs_back(s, j), Regex::all_runs(s, 3), Regex::runs_front_or_back(s, 4)));
        }
        13 => {
            let m = pick(&p.methods, i)?;
            ask(c, what, || (m.lead_head().to_owned(), m.row_in_plain_lead(k % m.lead_len()).to_owned(), m.row_in_plain_course(huge), m.lead_len(), m.title().to_owned()));
        }
        14 => ask(c, what, || {
            let mut m = Method::from_place_not_string("Name".to_owned(), a.stage(), &p.pn_texts[j % p.pn_texts.len()]).map_err(|e| e.to_string())?;
            m.set_lead_end_label();
            Ok::<_, String>((p_pure::method(&m), m.label_indices("LE").collect::<Vec<_>>()))
        }),
        15 => {
            let x = pick(&p.pn_blocks, i)?;
            ask(c, what, || {
                let class = FullClass::classify(&x.to_block_from_rounds::<()>());
                (class.class().name(), class.class().name_in_title(), class.class().is_plain(), class.class().is_treble_dodging(), class.is_little(), class.is_jump(), class.is_differential(), class.class().hunt_bell_class(), format!("{:?}", class))
            });
        }
        16 => ask(c, what, || {
            let mut out = d.clone();
            a.inv_into_buf(&mut out);
            let mut out2 = d.clone();
            (a.inv_into(&mut out2), out, out2, a.to_rc(), a.to_arc(), d.clone().into_bell_vec())
        }),
        17 => ask(c, what, || {
            let mut acc = RowAccumulator::rounds(a.stage());
            let mut seen = Vec::new();
            for x in &p.rows {
                seen.push((acc.accumulate(x), acc.total().to_owned()));
                acc.set(if k % 2 == 0 { a } else { x });
            }
            seen
        }),
        18 => ask(c, what, || {
            let bells: Vec<Bell> = a.bell_iter().chain(b.bell_iter().skip(k)).collect();
            (RowBuf::from_vec(bells.clone()), RowBuf::from_vec_with_stage(bells, d.stage()))
        }),
        _ => ask(c, what, || format!("{:#?} {:?} {} {:>9} {:?}", a, p.vecs.last(), b, d.stage(), p.masks.last().map(|m| m.to_string()))),
    }
    Some(())
}

trait Len {
    fn len_(&self) -> usize;
}

impl Len for RowBuf {
    fn len_(&self) -> usize {
        self.stage().num_bells()
    }
}

/* ===== NUMBERS ===== */

fn numbers(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    for _ in 0..4 {
        // (All of them fit every machine's words)
        let n: usize = match r.below(8) {
            0 => r.below(4),
            1 => gens::two_to(r.range(1, 31)),
            2 => gens::two_to(r.range(1, 31)) - 1,
            3 => gens::two_to(r.range(1, 31)) + r.below(20),
            4 => 0xffff_ffff - r.below(20),
            5 => 0x7fff_ffff - r.below(20),
            6 => (r.u64() >> 32) as usize,
            _ => r.below(300),
        };
        let m = r.below(300);
        ask(c, || format!("bell {}", n), || {
            let b = Bell::from_number(n);
            (b, b.map(|b| (b.to_char(), b.name(), b.index(), b.number(), format!("{} {:?}", b, b))))
        });
        ask(c, || format!("bell index {}", n), || (Bell::from_index(n.min(0xffff_fffe)), Bell::from_index(n.min(0xffff_fffe)).name()));
        ask(c, || format!("bell arithmetic {} {}", n, m), || {
            let b = Bell::from_index(m);
            let sum = guard(|| b + n.min(0xffff_0000)).ok();
            // (Below the treble, this overflows, like a `usize`)
            let diff = b - n % (m + 1);
            (sum, diff, b.cmp(&Bell::from_index(n.min(0xffff_fffe))))
        });
        ask(c, || format!("stage {}", n), || {
            let s = Stage::try_from(n);
            let from_u8 = Stage::try_from(m % 256);
            (s.map(|s| (s.num_bells(), s.name(), s.to_string(), format!("{:?}", s), s.tenor(), s.is_even())), from_u8.map(|s| s.to_string()))
        });
        let json = match r.below(6) {
            0 => format!("{}", n),
            1 => format!("-{}", n),
            2 => format!("{}.0", n),
            3 => format!("{:?}", gens::text(r, 3)),
            4 => format!("{}e{}", n % 10, n % 4),
            _ => format!("[{}]", n),
        };
        ask(c, || format!("JSON {}", json), || {
            (
                serde_json::from_str::<Bell>(&json).map_err(|e| e.to_string()),
                serde_json::from_str::<Stage>(&json).map_err(|e| e.to_string()),
                serde_json::to_string(&Bell::from_index(n.min(0xffff_fffe))).ok(),
                Stage::try_from(n).ok().and_then(|s| serde_json::to_string(&s).ok()),
            )
        });
        ask(c, || format!("serialised {}", n), || {
            macro_rules! with {
                ($d:ident, $t:ty) => {{
                    let b: $d<Error> = (n as $t).into_deserializer();
                    let s: $d<Error> = (n as $t).into_deserializer();
                    (Bell::deserialize(b).ok(), Stage::deserialize(s).ok())
                }};
            }
            (
                (with!(U8Deserializer, u8), with!(U16Deserializer, u16), with!(U32Deserializer, u32), with!(U64Deserializer, u64)),
                (with!(I16Deserializer, i16), with!(I32Deserializer, i32), with!(I64Deserializer, i64)),
            )
        });
        let mut mask = Mask::empty(st(1 + m % 20));
        ask(c, || format!("mask {} {}", n, m), || (mask.place_of(Bell::from_index(n.min(0xffff_fffe))), mask.fix(Bell::from_index(m)), mask.to_string()));
        ask(c, || format!("run {} {}", n, m), || {
            let n = n.min(0xffff_fff0);
            run_len([n, n + 1, n + 2, n + m % 4 + 1, n.saturating_sub(m)].map(Bell::from_index))
        });
        let row = rb(&gens::perm(r, 1 + m % 20));
        ask(c, || format!("row {} {}", n, m), || (row.place_of(Bell::from_index(n.min(0xffff_fffe))), row.pow_u(n), row.slice().get(n).copied()));
    }
    Ok(())
}

/// Numbers which no (or hardly any) value has, so that every calculation with them may overflow.  (These depend on
/// the word size, so these answers are only compared between builds)
fn limits(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let n = r.range(1, 9);
    let edge = |r: &mut Rng| {
        let x = *r.pick(&[usize::MAX, isize::MAX as usize, usize::MAX / 2 + 1, usize::MAX / 8, usize::MAX / 16, usize::MAX / 3, usize::MAX / n, usize::MAX / 8 / n]);
        x.saturating_add(r.below(4)).saturating_sub(r.below(4))
    };
    let (a, b, small) = (edge(r), edge(r), r.below(6));
    let row = rb(&gens::perm(r, n));
    let rows: Vec<Vec<usize>> = (0..r.range(1, 4)).map(|_| gens::perm(r, n)).collect();
    let v = gens::ssv(n, &rows);
    let x = AnnotBlock::with_annots_from_indices(v.clone(), |i| i as u8).unwrap();
    let what = |s: &str| format!("{} {} {} {} {} {:?}", s, a, b, small, row, rows);
    // (The last bell has no number, so can't be written down)
    let bell = |i: usize| Bell::from_index(i.min(usize::MAX - 1));
    ask(c, || what("bells"), || (Bell::from_number(a), bell(a).name(), bell(a).cmp(&bell(b)), bell(b).to_char(), serde_json::to_string(&bell(b)).ok()));
    ask(c, || what("run"), || run_len([bell(a), bell(b), bell(small)]));
    ask(c, || what("run up"), || run_len([a, a.saturating_add(1), a.saturating_add(2), small].map(bell)));
    ask(c, || what("run down"), || run_len([small, a, a - 1, a - 2].map(bell)));
    ask(c, || what("run from the treble"), || run_len([small, small + 1, a, b].map(bell)));
    ask(c, || what("row of bells"), || (RowBuf::from_vec(vec![bell(a), bell(small)]), RowBuf::from_vec_with_stage(vec![bell(0), bell(b)], st(n)), RowBuf::from_bell_iter([bell(a), bell(a)].into_iter())));
    ask(c, || what("place"), || (row.place_of(bell(a)), v.path_of(bell(b)), x.path_of(bell(a)), x.full_path_of(bell(b))));
    ask(c, || what("stage"), || Stage::try_from(a).map(|s| (s.name(), s.to_string(), s.tenor(), s.is_even(), s.cmp(&st(n)))));
    ask(c, || what("powers"), || (row.pow_u(a), row.pow_i(b as isize), row.pow_i((a as isize).wrapping_neg())));
    ask(c, || what("get"), || (v.get(a), v.clone().get_mut(b).is_some(), v.clone().split(a).is_some(), v.iter().nth(a), v.iter().rev().nth(b)));
    ask(c, || what("get from block"), || (x.get_row(a), x.get_annot(b), x.get_annot_row(a).is_some(), x.clone().split(b).is_some(), x.clone().get_annot_mut(a).is_some()));
    for (i, range) in [(small, a), (a, b), (b, small), (a, a)].into_iter().enumerate() {
        let (start, end) = range;
        ask(c, || what(&format!("range {}", i)), || {
            let mut y = x.clone();
            let e = y.extend_range(&x, start..end);
            (e, p_pure::block(&y))
        });
        ask(c, || what(&format!("range to {}", i)), || {
            let mut y = x.clone();
            y.extend_from_within(start..=end);
            p_pure::block(&y)
        });
        ask(c, || what(&format!("transposed range {}", i)), || {
            let mut w = v.clone();
            let e = w.extend_range_transposed(&row, &v, start..=end);
            (e, w)
        });
        ask(c, || what(&format!("transposed range within {}", i)), || {
            let mut w = v.clone();
            let e = w.extend_transposed_from_within(start..end, &row);
            (e, w)
        });
    }
    let pn = gens::pn(&gens::full_places(r, n), n);
    ask(c, || what("places"), || (pn.contains(a), pn.contains(b)));
    let method = Method::with_name("Name".to_owned(), PnBlock::from_vec(vec![pn.clone(), pn.clone()]).unwrap().to_block_from_rounds());
    ask(c, || what("method"), || (method.row_in_plain_course(a), method.row_in_plain_course(b)));
    ask(c, || what("get label"), || method.get_label(b).map(|s| s.to_owned()));
    ask(c, || what("label"), || {
        let mut m = method.clone();
        m.set_label(a, Some("A".to_owned()));
        p_pure::method(&m)
    });
    ask(c, || what("call"), || {
        let call = Call::new('-', "LE".to_owned(), a, PnBlock::from_vec(vec![pn.clone()]).unwrap().to_block_from_rounds());
        (call.cover_len(), call.len(), call.stage())
    });
    let mut mask = Mask::empty(st(n));
    ask(c, || what("mask"), || (mask.place_of(bell(a)), mask.set_bell(bell(b), small % n), mask.to_string(), mask.place_of(bell(b)), mask.matches(&row)));
    ask(c, || what("mask's place"), || mask.set_bell(bell(small), b));
    ask(c, || what("fixed mask"), || mask.fix(bell(a)));
    ask(c, || what("runs"), || (Regex::runs_front(st(n), a), Regex::runs_back(st(n), b), Regex::runs(st(n), a, true), Regex::all_runs(st(n), b)));
    ask(c, || what("counts"), || {
        let elems: Vec<bellframe::music::RegexElem> = (0..small + 20).map(|i| if i % 2 == 0 { bellframe::music::RegexElem::Glob } else { bellframe::music::RegexElem::Any }).collect();
        (Regex::from_vec(elems).num_matching_rows(st(10 * n)), Regex::parse("*1*").num_matching_rows(st(n * 9)))
    });
    ask(c, || what("capacity"), || SameStageVec::with_capacity(st(n), 1000).len());
    Ok(())
}

/// Numbers which may not fit this machine's words are given exactly, or refused
fn refused(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    for _ in 0..3 {
        // How many rows match the pattern, with no or one `*` for several bells
        let n = r.range(8, 34);
        let fixed = r.below(n.min(5));
        let pattern: String = model::NAMES.chars().take(fixed).chain(['*']).collect();
        let exact: Option<u128> = (1..=(n - fixed) as u128).try_fold(1u128, |x, i| x.checked_mul(i));
        let got = Regex::parse(&pattern).num_matching_rows(st(n));
        c.log(|| format!("{} on {}: {:?}", pattern, n, got));
        match (got, exact) {
            (Some(g), Some(e)) => ensure!(g as u128 == e, "{} rows of {} match {}, not {}", e, n, pattern, g),
            (Some(g), None) => return Err(format!("more rows of {} match {} than {}", n, pattern, g)),
            (None, e) => ensure!(e.map_or(true, |e| e > usize::MAX as u128), "{:?} rows of {} match {}, which fits a usize", e, n, pattern),
        }
        c.sig(hash_str(&pattern) ^ n as u64);
        // Numbers of bells
        let x: u64 = match r.below(5) {
            0 => r.u64() >> r.below(63),
            1 => (1u64 << r.range(30, 63)) + r.below(3) as u64,
            2 => (1u64 << r.range(30, 63)) - r.below(3) as u64,
            3 => u64::MAX - r.below(3) as u64,
            _ => ((r.u64() >> 40) << 32) + r.below(20) as u64,
        };
        let json = x.to_string();
        let fits = x > 0 && x <= usize::MAX as u64;
        let bell = serde_json::from_str::<Bell>(&json).map(|b| b.index() as u64 + 1).ok();
        let stage = serde_json::from_str::<Stage>(&json).map(|s| s.num_bells() as u64).ok();
        ensure!(bell == if fits { Some(x) } else { None }, "bell {} was read as {:?}", x, bell);
        ensure!(stage == if fits { Some(x) } else { None }, "stage {} was read as {:?}", x, stage);
        if x <= i64::MAX as u64 {
            let d: I64Deserializer<Error> = (x as i64).into_deserializer();
            let bell = Bell::deserialize(d).map(|b| b.index() as u64 + 1).ok();
            ensure!(bell == if fits { Some(x) } else { None }, "bell {} (signed) was read as {:?}", x, bell);
        }
        c.count(if fits { "numbers which fit" } else { "numbers which don't fit" });
    }
    Ok(())
}

/// Around the number of bits in a word
fn big_stages(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let n = match r.below(5) {
        0 => r.range(31, 34),
        3 => r.range(9, 17), // around what `fast_hash` can tell apart
        1 => r.range(63, 66),
        2 => r.range(127, 130),
        _ => r.range(17, 70),
    };
    let what = |s: &str| format!("{} on {} bells", s, n);
    let (p, q) = (gens::perm(r, n), gens::perm(r, n));
    let (a, b) = (rb(&p), rb(&q));
    let bells = |p: &[usize]| p.iter().map(|&i| gens::bell(i)).collect::<Vec<_>>();
    let mut wrong = p.clone();
    let at = r.below(n);
    wrong[at] = *r.pick(&[(p[at] + 32) % n, (p[at] + 64) % n, p[at] + 32, p[at] + 64, p[(at + 1) % n]]);
    ask(c, || what("row"), || (RowBuf::from_vec(bells(&p)), RowBuf::from_vec(bells(&wrong)), RowBuf::from_bell_iter(bells(&wrong).into_iter())));
    ask(c, || what("row with stage"), || (RowBuf::from_vec_with_stage(bells(&p[..n / 2]), st(n)), RowBuf::from_vec_with_stage(bells(&wrong), st(n + 1))));
    ask(c, || what("product"), || (&*a * &*b, a.inv(), a.mul_result(&b.inv())));
    ask(c, || what("parity"), || (a.clone().parity(), a.effective_stage(), a.is_rounds(), RowBuf::backrounds(st(n)).is_backrounds(), a.cmp(&b)));
    ask(c, || what("places"), || (a.place_of(gens::bell(r.below(n))), a.fixed_bells().collect::<Vec<_>>()));
    ask(c, || what("rows"), || (RowBuf::queens(st(n)), RowBuf::rounds(st(n)), st(n).to_string(), st(n).name(), a.to_string()));
    ask(c, || what("power"), || a.pow_i(-3));
    // Rows which differ only at one end
    let mut cycled = p.clone();
    let k = r.range(1, 5);
    if r.bool() {
        cycled[n - k..].rotate_left(1);
    } else {
        cycled[..k].rotate_left(1);
    }
    let d = rb(&cycled);
    ask(c, || what("near rows"), || {
        let set: HashSet<&Row> = [&*a, &*b, &*d].into_iter().collect();
        let quotient = Row::solve_xa_equals_b(&a, &d).unwrap();
        let rounds = RowBuf::rounds(st(n));
        let group = Row::is_group([&*rounds, &*quotient]);
        let closure = Row::is_group(quotient.closure().iter().map(|r| &**r));
        (set.len(), a == d, a.cmp(&d), group, closure, quotient.closure_from_rounds())
    });
    let chosen: Vec<Bell> = bells(&p[..n / 2]);
    ask(c, || what("mask"), || {
        let mut m = Mask::empty(st(n));
        let set: Vec<_> = chosen.iter().enumerate().map(|(i, &b)| m.set_bell(b, (2 * i + 1) % n).is_ok()).collect();
        let fixed = Mask::fix_bells(st(n), chosen.iter().take(9).copied());
        (set, m.matches(&a), m.to_string(), fixed.to_string(), fixed.matches(&a), fixed.is_compatible_with(&m), m.combine(&fixed).map(|m| m.to_string()))
    });
    let full = gens::full_places(r, n);
    let pn = gens::pn(&full, n);
    ask(c, || what("change"), || (pn.transposition(), pn.permute_new(&a), (0..n + 2).map(|i| pn.contains(i)).collect::<Vec<_>>(), pn.has_internal_places(), pn.to_string()));
    ask(c, || what("between"), || PlaceNot::pn_between(&a, &pn.permute_new(&a).unwrap()).map(|p| gens::pn_places(&p)));
    let v = gens::ssv(n, &[p.clone(), q.clone()]);
    ask(c, || what("vec"), || (v.path_of(gens::bell(n - 1)), v.pre_multiplied(&a), v.get(1), v.get(2)));
    let elems: Vec<bellframe::music::RegexElem> = p.iter().map(|&i| if r.chance(1, 3) { bellframe::music::RegexElem::Glob } else { bellframe::music::RegexElem::Bell(gens::bell(i)) }).collect();
    ask(c, || what("pattern"), || {
        let x = Regex::from_vec(elems);
        (x.matches(&a), x.matches(&b), x.match_pattern(&a), x.to_string())
    });
    Ok(())
}

/* ===== TEXTS ===== */

fn texts(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    for _ in 0..4 {
        let n = r.range(1, 16);
        let len = r.range(1, 24);
        let s: String = match r.below(4) {
            0 => gens::text(r, len),
            1 => rb(&gens::perm(r, n)).to_string(),
            2 => {
                let alphabet: Vec<char> = "1234567890ETA-x.,&+ *\n?".chars().collect();
                (0..len).map(|_| *r.pick(&alphabet)).collect()
            }
            _ => {
                let mut t = String::new();
                for _ in 0..r.range(1, 6) {
                    let full = gens::full_places(r, n);
                    t.extend(full.iter().filter_map(|&p| model::NAMES.chars().nth(p)));
                    t.push_str(*r.pick(&[".", "-", "x", ",", ".", " "]));
                }
                t
            }
        };
        let stage = st(n);
        ask(c, || format!("row {:?}", s), || (RowBuf::parse(&s).map_err(|e| (e.to_string(), e)), RowBuf::parse_with_stage(&s, stage).map_err(|e| e.to_string())));
        ask(c, || format!("rows {:?}", s), || (SameStageVec::parse(&s).map_err(|e| e.to_string()), Block::parse(&s).map(|b| p_pure::block(&b)).map_err(|e| e.to_string())));
        ask(c, || format!("change {:?} on {}", s, n), || PlaceNot::parse(&s, stage).map(|p| (p.to_string(), gens::pn_places(&p))).map_err(|e| (e.to_string(), e)));
        ask(c, || format!("changes {:?} on {}", s, n), || {
            PnBlock::parse(&s, stage).map(|b| (format!("{:?}", b), b.len(), b.to_rows(RowBuf::rounds(stage)))).map_err(|e| (e.to_string(), e))
        });
        ask(c, || format!("music {:?}", s), || {
            let x = Regex::parse(&s);
            (x.to_string(), x.elems().to_vec(), x.matches(&RowBuf::rounds(stage)), x.match_pattern(&RowBuf::queens(stage)))
        });
        ask(c, || format!("mask {:?}", s), || Mask::parse(&s).to_string());
        ask(c, || format!("stage {:?}", s), || (Stage::from_lower_case_name(&s), s.chars().map(Bell::from_name).collect::<Vec<_>>()));
        if r.chance(1, 3) {
            ask(c, || format!("library {:?}", s), || MethodLib::from_json(&s).map(|_| ()).map_err(|e| e.to_string()));
        }
        ask(c, || format!("serialised {:?}", s), || {
            let json = serde_json::to_string(&s).unwrap_or_default();
            let x: Result<Regex, _> = Ok::<_, ()>(Regex::parse(&s));
            (serde_json::from_str::<Stage>(&json).map_err(|e| e.to_string()), x.map(|x| x.to_string()))
        });
    }
    Ok(())
}

/* ===== GROUPS ===== */

fn groups(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let n = r.range(2, 4);
    let rows: Vec<RowBuf> = (0..r.range(1, 3)).map(|_| rb(&gens::perm(r, n))).collect();
    ask(c, || format!("group of {:?}", rows), || {
        let mut all: Vec<RowBuf> = Row::least_group_containing(rows.iter().map(|r| &**r)).map(|s| s.into_iter().collect()).unwrap_or_default();
        all.sort();
        (Row::is_group(all.iter().map(|r| &**r)), all)
    });
    ask(c, || format!("product of {:?}", rows), || Row::multi_cartesian_product([rows.iter(), rows.iter()]));
    let k = r.range(2, 9);
    let row = rb(&gens::perm(r, k));
    ask(c, || format!("closures of {}", row), || (row.closure(), row.closure_from_rounds()));
    let blk = AnnotBlock::<()>::with_default_annots(gens::ssv(n, &[gens::perm(r, n), gens::perm(r, n)]));
    ask(c, || format!("repeats of {:?}", p_pure::block(&blk)), || blk.repeat_iter(RowBuf::rounds(st(n))).map(|i| i.take(9).map(|x| x.0).collect::<Vec<_>>()));
    Ok(())
}
