//! C07, C19: text round trips, and serialisation of bells and stages

use bellframe::{
    block, mask::Mask, music::{Regex, RegexElem}, row::same_stage_vec, AnnotBlock, Bell, InvalidRowError, PlaceNot, RowBuf,
    SameStageVec, Stage,
};
use serde::de::{value, IntoDeserializer};
use serde::{Deserialize, Deserializer, Serialize};

use crate::{
    ctx::{exhaustive, guard, random, Case, Probe, R},
    ensure, eq,
    gens::{self, bell, ints, rb, show, st},
    model::{self, E},
    rng::{hash_str, hash_usizes, mix, Rng},
};

/* ===== C07 ===== */

pub const C07: &[Probe] = &[
    exhaustive("every-char-as-a-bell", 1088, 1088, every_char),
    exhaustive("bell-names", 400, 400, bell_names),
    exhaustive("stage-names", 400, 400, stage_names),
    random("not-stage-names", 20_000, |c| {
        let r = &mut c.rng.clone();
        let mut s: String = if r.bool() { gens::text(r, 12) } else { model::STAGE_NAMES[r.below(22)].to_lowercase() };
        match r.below(6) {
            0 => s.push(' '),
            1 => s.insert(0, ' '),
            2 => s = s.chars().skip(1).collect(),
            3 => s.push('s'),
            4 => s = s.replace('-', ""),
            _ => {}
        }
        let e = model::STAGE_NAMES.iter().position(|n| n.to_lowercase() == s).map(|i| i + 1);
        c.log(|| format!("{:?}", s));
        eq!(Stage::from_lower_case_name(&s).map(|s| s.num_bells()), e, "from_lower_case_name({:?})", s);
        c.count(if e.is_some() { "stage names" } else { "not stage names" });
        c.sig(hash_str(&s));
        Ok(())
    }),
    exhaustive("all-rows-up-to-7", 5_913, 5_913, |c| {
        let mut i = c.idx;
        for n in 1..=7 {
            let f = model::factorial(n) as u64;
            if i < f {
                return row_text(c, &model::nth_perm(n, i));
            }
            i -= f;
        }
        Ok(())
    }),
    random("rows", 40_000, |c| {
        let n = gens::stage(&mut c.rng, 40);
        let p = gens::perm(&mut c.rng, n);
        row_text(c, &p)
    }),
    random("multi-line", 25_000, multi_line),
    random("masks", 30_000, mask_text),
    random("regexes", 30_000, regex_text),
    random("place-notation", 30_000, pn_text),
];

fn every_char(c: &mut Case) -> R {
    // Each case checks 1024 chars
    let start = c.idx as u32 * 1024;
    c.log(|| format!("chars U+{:X}..", start));
    for x in start..start + 1024 {
        let Some(ch) = char::from_u32(x) else { continue };
        eq!(Bell::from_name(ch).map(|b| b.index()), model::bell_of_char(ch), "Bell::from_name({:?})", ch);
        c.count("chars");
    }
    c.sig(c.idx);
    Ok(())
}

fn bell_names(c: &mut Case) -> R {
    let i = c.idx as usize;
    let b = bell(i);
    c.log(|| format!("bell index {}", i));
    let ch = model::NAMES.chars().nth(i);
    eq!(b.to_char(), ch, "to_char");
    eq!(b.name(), model::bell_name(i), "name");
    eq!(b.to_string(), model::bell_name(i), "Display");
    if let Some(ch) = b.to_char() {
        eq!(Bell::from_name(ch), Some(b), "from_name(to_char)");
    }
    eq!(b.number(), i + 1, "number");
    eq!(Bell::from_number(i + 1), Some(b), "from_number");
    eq!(Bell::from_number(i), i.checked_sub(1).map(bell), "from_number({})", i);
    eq!(b + 3, bell(i + 3), "bell + 3");
    if i >= 3 {
        eq!(b - 3, bell(i - 3), "bell - 3");
    }
    let mut x = b;
    x += 5;
    eq!(x, bell(i + 5), "bell += 5");
    x -= 4;
    eq!(x, bell(i + 1), "bell -= 4");
    c.count("bells");
    c.sig(i as u64);
    Ok(())
}

fn stage_names(c: &mut Case) -> R {
    let n = c.idx as usize;
    c.log(|| format!("stage of {} bells", n));
    if n == 0 {
        ensure!(guard(|| Stage::new(0)).is_err(), "Stage::new(0) didn't panic");
        ensure!(Stage::try_from(0).is_err(), "Stage::try_from(0) succeeded");
        return Ok(());
    }
    let s = Stage::new(n);
    eq!(Stage::try_from(n).ok(), Some(s), "try_from");
    eq!(s.name(), model::STAGE_NAMES.get(n - 1).copied(), "name of {} bells", n);
    eq!(s.to_string(), model::stage_display(n), "Display of {} bells", n);
    if let Some(name) = s.name() {
        eq!(Stage::from_lower_case_name(&name.to_lowercase()), Some(s), "from_lower_case_name(name)");
        // Names which aren't lower case aren't accepted
        eq!(Stage::from_lower_case_name(&name.to_uppercase()), None, "from_lower_case_name of upper case");
    }
    let consts = [
        Stage::ONE,
        Stage::TWO,
        Stage::SINGLES,
        Stage::MINIMUS,
        Stage::DOUBLES,
        Stage::MINOR,
        Stage::TRIPLES,
        Stage::MAJOR,
        Stage::CATERS,
        Stage::ROYAL,
        Stage::CINQUES,
        Stage::MAXIMUS,
        Stage::SEXTUPLES,
        Stage::FOURTEEN,
        Stage::SEPTUPLES,
        Stage::SIXTEEN,
    ];
    if let Some(k) = consts.get(n - 1) {
        eq!(*k, s, "constant for {} bells", n);
    }
    c.count("stages");
    c.sig(n as u64);
    Ok(())
}

const IGNORED: &[char] = &[' ', '|', '[', ']', '\t', 'I', 'O', 'e', 't', 'é', '🦀', '\0', '１', '/', '~'];

fn row_text(c: &mut Case, p: &[usize]) -> R {
    c.log(|| format!("row {}", show(p)));
    let n = p.len();
    let r = rb(p);
    let s = r.to_string();
    eq!(s, show(p), "text of a row");
    eq!(r.as_row().to_string(), s, "text of an unsized row");
    if n <= 33 {
        eq!(RowBuf::parse(&s).map(|r| ints(&r)), Ok(p.to_vec()), "parse({:?})", s);
        let noisy = gens::sprinkle(&mut c.rng, &s, IGNORED);
        eq!(RowBuf::parse(&noisy).map(|r| ints(&r)), Ok(p.to_vec()), "parse({:?})", noisy);
        eq!(noisy.parse::<RowBuf>().map(|r| ints(&r)), Ok(p.to_vec()), "str::parse of {:?}", noisy);
        eq!(RowBuf::parse_with_stage(&noisy, st(n)).map(|r| ints(&r)), Ok(p.to_vec()), "parse_with_stage({:?})", noisy);
        c.count("rows read back");
    } else {
        c.count("rows without a readable form");
    }
    c.sig(hash_usizes(p));
    Ok(())
}

fn multi_line(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let n = gens::stage(r, 33);
    let k = r.range(1, 8);
    let mut rows: Vec<Vec<usize>> = (0..k).map(|_| gens::perm(r, n)).collect();
    if r.chance(1, 3) {
        // Make some lines bad
        for _ in 0..r.range(1, 2) {
            let i = r.below(k);
            match r.below(4) {
                0 => {
                    let m = r.range(1, 33);
                    rows[i] = gens::perm(r, m)
                }
                1 => rows[i] = vec![],
                2 => {
                    rows[i].pop();
                    rows[i].push(0);
                }
                _ => {
                    rows[i].pop();
                }
            }
        }
    }
    let eol = *r.pick(&["\n", "\n", "\r\n"]);
    let lines: Vec<String> = rows.iter().map(|p| if r.chance(1, 3) { gens::sprinkle(r, &show(p), &[' ', '|', '\t', 'é', '🦀']) } else { show(p) }).collect();
    let mut text = lines.join(eol);
    // A trailing newline doesn't make another line (but if the last row is empty, then it may)
    if (r.bool() && !text.is_empty()) || lines[k - 1].is_empty() {
        text.push_str(eol);
    }
    c.log(|| format!("{:?}", text));
    let good = rows.iter().all(|p| p.len() == rows[0].len() && model::is_perm(p));
    let parsed = SameStageVec::parse(&text);
    match (&parsed, good) {
        (Ok(v), true) => {
            eq!(gens::ssv_rows(v), rows, "rows parsed from {:?}", text);
            eq!(v.stage().num_bells(), rows[0].len(), "stage of {:?}", text);
            // Write it out again
            let again: String = v.iter().map(|r| format!("{}\n", r)).collect();
            eq!(gens::ssv_rows(&SameStageVec::parse(&again).map_err(|e| e.to_string())?), rows, "round trip of {:?}", again);
            c.count("multi-line texts");
        }
        (Err(e), false) => {
            vec_error_is_true(e, &rows)?;
            c.count("bad multi-line texts");
        }
        (Ok(v), false) => return Err(format!("parse({:?}) gave {:?}", text, v)),
        (Err(e), true) => return Err(format!("parse({:?}) failed with {}", text, e)),
    }
    // Blocks
    let b = AnnotBlock::<u8>::parse(&text);
    match (&b, good) {
        (Ok(b), true) => {
            eq!(gens::ssv_rows(b.row_vec()), rows, "rows of a block parsed from {:?}", text);
            eq!(b.len(), rows.len() - 1, "length of a block parsed from {:?}", text);
            eq!(b.annots().copied().collect::<Vec<_>>(), vec![0; rows.len() - 1], "annotations of a parsed block");
        }
        (Err(block::ParseError::Other(e)), false) => vec_error_is_true(e, &rows)?,
        (Err(block::ParseError::ZeroLengthBlock), false) => {
            ensure!(rows.iter().all(|r| r.is_empty()), "a block of {:?} was said to be empty", text)
        }
        (Ok(v), false) => return Err(format!("Block::parse({:?}) gave {:?}", text, v)),
        (Err(e), true) => return Err(format!("Block::parse({:?}) failed with {}", text, e)),
    }
    c.sig(hash_usizes(&rows.concat()) ^ k as u64);
    Ok(())
}

fn vec_error_is_true(e: &same_stage_vec::ParseError, rows: &[Vec<usize>]) -> R {
    let at = |line_num: usize| -> Result<&Vec<usize>, String> {
        line_num.checked_sub(1).and_then(|i| rows.get(i)).ok_or_else(|| format!("the error {:?} is about line {} of {}", e, line_num, rows.len()))
    };
    let msg = e.to_string();
    match e {
        same_stage_vec::ParseError::ZeroStage => ensure!(rows.iter().all(|r| r.is_empty()), "{:?} isn't true of {:?}", e, rows),
        same_stage_vec::ParseError::InvalidRow { line_num, err } => {
            let p = at(*line_num)?;
            let truth = match err {
                InvalidRowError::NoBells => p.is_empty(),
                InvalidRowError::DuplicateBell(b) => p.iter().filter(|x| **x == b.index()).count() > 1,
                InvalidRowError::BellOutOfStage(b, s) => p.contains(&b.index()) && b.index() >= s.num_bells() && s.num_bells() == p.len(),
                InvalidRowError::MissingBell(b) => !p.contains(&b.index()) && b.index() < p.len(),
            };
            ensure!(truth, "{:?} isn't true of line {:?}", e, p);
            ensure!(msg.contains(&line_num.to_string()), "the message {:?} doesn't name line {}", msg, line_num);
        }
        same_stage_vec::ParseError::IncompatibleStages { line_num, first_stage, different_stage } => {
            let p = at(*line_num)?;
            ensure!(
                first_stage.num_bells() == rows[0].len() && different_stage.num_bells() == p.len() && p.len() != rows[0].len(),
                "{:?} isn't true of line {:?} (where the first line is {:?})",
                e,
                p,
                rows[0]
            );
            ensure!(msg.contains(&line_num.to_string()), "the message {:?} doesn't name line {}", msg, line_num);
        }
    }
    Ok(())
}

fn mask_text(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let n = gens::stage(r, 33);
    let d = r.range(1, 4);
    let m: model::M = gens::perm(r, n).into_iter().map(|b| r.chance(1, d).then_some(b)).collect();
    let mut mask = Mask::empty(st(n));
    for (i, b) in m.iter().enumerate() {
        if let Some(b) = b {
            mask.set_bell(bell(*b), i).map_err(|_| format!("set_bell({}, {}) failed", b, i))?;
        }
    }
    let s = mask.to_string();
    let e: String = m.iter().map(|b| b.map_or("x".to_owned(), model::bell_name)).collect();
    c.log(|| format!("mask {}", e));
    eq!(s, e, "text of a mask");
    ensure!(Mask::parse(&s) == mask, "parsing {:?} gives {:?}", s, Mask::parse(&s));
    // In other spellings
    let other: String = e.chars().map(|ch| if ch == 'x' { *c.rng.pick(&['x', 'X', '.']) } else { ch }).collect();
    let other = gens::sprinkle(&mut c.rng, &other, &[' ', '|', '\t', 'é', '🦀', '*', '-']);
    ensure!(Mask::parse(&other) == mask, "parsing {:?} gives {:?}, expected {:?}", other, Mask::parse(&other), mask);
    eq!(mask.stage().num_bells(), n, "stage of the mask {}", s);
    let full = gens::perm(&mut c.rng, n);
    eq!(Mask::full_row(&rb(&full)).to_string(), show(&full), "text of the mask of a row");
    c.count("masks read back");
    c.sig(hash_str(&e));
    Ok(())
}

fn regex_text(c: &mut Case) -> R {
    let elems = crate::p_music::elems(&mut c.rng, 33);
    let text: String = elems
        .iter()
        .map(|e| match e {
            E::B(b) => model::bell_name(*b),
            E::Any => c.rng.pick(&["x", "."]).to_string(),
            E::Glob => "*".to_owned(),
        })
        .collect();
    c.log(|| format!("regex {:?}", text));
    let noisy = gens::sprinkle(&mut c.rng, &text, &[' ', '|', '\t', 'é', '🦀', '-', '+']);
    let r = Regex::parse(&noisy);
    let e = model::regex_normal(&elems);
    let e_text: String = e
        .iter()
        .map(|e| match e {
            E::B(b) => model::bell_name(*b),
            E::Any => "x".to_owned(),
            E::Glob => "*".to_owned(),
        })
        .collect();
    eq!(r.to_string(), e_text, "text of the regex {:?}", noisy);
    ensure!(Regex::parse(&e_text) == r, "parsing {:?} again gives {:?}", e_text, Regex::parse(&e_text));
    let built = Regex::from_elems(elems.iter().map(|e| match e {
        E::B(b) => RegexElem::Bell(bell(*b)),
        E::Any => RegexElem::Any,
        E::Glob => RegexElem::Glob,
    }));
    ensure!(built == r, "from_elems gives {:?} but parsing gives {:?}", built, r);
    c.count("regexes read back");
    c.sig(hash_str(&e_text));
    Ok(())
}

fn pn_text(c: &mut Case) -> R {
    let n = gens::stage(&mut c.rng, 33);
    let full = gens::full_places(&mut c.rng, n);
    let pn = gens::pn(&full, n);
    let s = pn.to_string();
    c.log(|| format!("place notation {:?} on {} bells", s, n));
    if full.is_empty() {
        ensure!(["x", "X", "-"].contains(&s.as_str()), "text of a cross is {:?}", s);
        for x in ["x", "X", "-"] {
            ensure!(PlaceNot::parse(x, st(n)) == Ok(pn.clone()), "parsing {:?} gives {:?}", x, PlaceNot::parse(x, st(n)));
        }
    } else {
        let got = PlaceNot::parse(&s, st(n));
        ensure!(got == Ok(pn.clone()), "parsing {:?} on {} bells gives {:?}", s, n, got);
        let mut shuffled = full.clone();
        c.rng.shuffle(&mut shuffled);
        let t = gens::sprinkle(&mut c.rng, &show(&shuffled), &[' ', '|', '\t', 'é', '🦀']);
        let got = PlaceNot::parse(&t, st(n));
        ensure!(got == Ok(pn.clone()), "parsing {:?} on {} bells gives {:?}, expected {:?}", t, n, got, pn);
    }
    c.count("place notations read back");
    c.sig(mix(hash_usizes(&full)) ^ n as u64);
    Ok(())
}

/* ===== C19: SERDE ===== */

pub const C19: &[Probe] = &[
    exhaustive("bells", 2_000, 2_000, |c| {
        let i = if c.idx < 1_000 { c.idx as usize } else { gens::two_to(c.idx as usize % 64).wrapping_add(c.idx as usize % 7).min(usize::MAX - 1) };
        bell_serde(c, i)
    }),
    exhaustive("stages", 2_000, 2_000, |c| {
        let i = if c.idx < 1_000 { c.idx as usize + 1 } else { gens::two_to(c.idx as usize % 64).wrapping_add(c.idx as usize % 7).max(1) };
        stage_serde(c, i)
    }),
    random("collections", 5_000, collections),
    random("numbers", 30_000, numbers),
    random("strings", 30_000, strings),
    random("other-json", 20_000, other_json),
];

/// A format which, like Bincode, doesn't describe its own types.
struct Bin(u64);
impl<'de> Deserializer<'de> for Bin {
    type Error = value::Error;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, _: V) -> Result<V::Value, Self::Error> {
        Err(serde::de::Error::custom("this format isn't self-describing"))
    }
    fn deserialize_u64<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        v.visit_u64(self.0)
    }
    fn is_human_readable(&self) -> bool {
        false
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

fn bell_serde(c: &mut Case, i: usize) -> R {
    let b = bell(i);
    c.log(|| format!("bell index {}", i));
    let s = serde_json::to_string(&b).map_err(|e| format!("can't serialise bell {}: {}", i, e))?;
    let back: Bell = serde_json::from_str(&s).map_err(|e| format!("can't read bell {} back from {}: {}", i, s, e))?;
    eq!(back.index(), i, "bell read back from {}", s);
    let v = serde_json::to_value(b).map_err(|e| e.to_string())?;
    let back: Bell = serde_json::from_value(v).map_err(|e| e.to_string())?;
    eq!(back.index(), i, "bell read back from a Value");
    // A format without types reads exactly what was written
    let n: u64 = s.parse().map_err(|_| format!("bell {} is written as {}, not as a number", i, s))?;
    eq!(n, i as u64 + 1, "serialised bell index {}", i);
    let back = Bell::deserialize(Bin(n)).map_err(|e| format!("can't read bell {} from an untyped format: {}", i, e))?;
    eq!(back.index(), i, "bell read back from an untyped format");
    if let Some(ch) = model::NAMES.chars().nth(i) {
        // (JSON only hands over strings to types which ask for anything, but e.g. TOML always does)
        let t = ch.to_string();
        let d: value::StringDeserializer<value::Error> = t.clone().into_deserializer();
        let back = Bell::deserialize(d).map_err(|e| format!("can't read bell {} from {:?}: {}", i, t, e))?;
        eq!(back.index(), i, "bell read from {:?}", t);
        let d: value::StrDeserializer<value::Error> = t.as_str().into_deserializer();
        let back = Bell::deserialize(d).map_err(|e| format!("can't read bell {} from {:?}: {}", i, t, e))?;
        eq!(back.index(), i, "bell read from {:?}", t);
        let d: value::CharDeserializer<value::Error> = ch.into_deserializer();
        let back = Bell::deserialize(d).map_err(|e| format!("can't read a bell from the char {}: {}", ch, e))?;
        eq!(back.index(), i, "bell read from the char {:?}", ch);
    }
    c.count("bells read back");
    c.sig(i as u64);
    Ok(())
}

fn stage_serde(c: &mut Case, n: usize) -> R {
    let s = st(n);
    c.log(|| format!("stage of {} bells", n));
    let t = serde_json::to_string(&s).map_err(|e| format!("can't serialise stage {}: {}", n, e))?;
    let back: Stage = serde_json::from_str(&t).map_err(|e| format!("can't read stage {} back from {}: {}", n, t, e))?;
    eq!(back.num_bells(), n, "stage read back from {}", t);
    let v = serde_json::to_value(s).map_err(|e| e.to_string())?;
    let back: Stage = serde_json::from_value(v).map_err(|e| e.to_string())?;
    eq!(back.num_bells(), n, "stage read back from a Value");
    let k: u64 = t.parse().map_err(|_| format!("stage {} is written as {}, not as a number", n, t))?;
    eq!(k, n as u64, "serialised stage {}", n);
    let back = Stage::deserialize(Bin(k)).map_err(|e| format!("can't read stage {} from an untyped format: {}", n, e))?;
    eq!(back.num_bells(), n, "stage read back from an untyped format");
    if n <= 22 {
        // In any case
        let name = model::STAGE_NAMES[n - 1];
        let mixed: String = name.chars().map(|ch| if c.rng.bool() { ch.to_ascii_uppercase() } else { ch.to_ascii_lowercase() }).collect();
        for t in [name.to_owned(), name.to_lowercase(), name.to_uppercase(), mixed] {
            let d: value::StrDeserializer<value::Error> = t.as_str().into_deserializer();
            let back = Stage::deserialize(d).map_err(|e| format!("can't read a stage from {:?}: {}", t, e))?;
            eq!(back.num_bells(), n, "stage read from {:?}", t);
        }
    }
    c.count("stages read back");
    c.sig(n as u64);
    Ok(())
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Config {
    stage: Stage,
    tenor: Option<Bell>,
    bells: Vec<Bell>,
    pairs: Vec<(Bell, Stage)>,
    tag: Tag,
    by_bell: std::collections::BTreeMap<Bell, Stage>,
    by_stage: std::collections::HashMap<Stage, Vec<Bell>>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
enum Tag {
    None,
    B(Bell),
    S { stage: Stage },
}

fn collections(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let any_bell = |r: &mut Rng| bell(if r.chance(1, 4) { ((r.u64() >> r.range(1, 60)) as usize).min(usize::MAX - 1) } else { r.below(40) });
    let any_stage = |r: &mut Rng| st(if r.chance(1, 4) { ((r.u64() >> r.range(1, 60)) as usize).max(1) } else { r.range(1, 40) });
    let x = Config {
        stage: any_stage(r),
        tenor: r.bool().then(|| any_bell(r)),
        bells: (0..r.below(12)).map(|_| any_bell(r)).collect(),
        pairs: (0..r.below(4)).map(|_| (any_bell(r), any_stage(r))).collect(),
        tag: match r.below(3) {
            0 => Tag::None,
            1 => Tag::B(any_bell(r)),
            _ => Tag::S { stage: any_stage(r) },
        },
        by_bell: (0..r.below(4)).map(|_| (any_bell(r), any_stage(r))).collect(),
        by_stage: (0..r.below(4)).map(|_| (any_stage(r), vec![any_bell(r)])).collect(),
    };
    let s = if r.bool() { serde_json::to_string(&x) } else { serde_json::to_string_pretty(&x) }.map_err(|e| e.to_string())?;
    c.log(|| s.clone());
    let back: Config = serde_json::from_str(&s).map_err(|e| format!("can't read {} back: {}", s, e))?;
    eq!(back, x, "read back from {}", s);
    let back: Config = serde_json::from_slice(s.as_bytes()).map_err(|e| format!("can't read {} back: {}", s, e))?;
    eq!(back, x, "read back from the bytes {}", s);
    let back: Config = serde_json::from_reader(s.as_bytes()).map_err(|e| format!("can't read {} back: {}", s, e))?;
    eq!(back, x, "read back from the reader {}", s);
    c.count("structures read back");
    c.sig(hash_str(&s));
    Ok(())
}

/// What a number means, as a bell or as a stage: only positive numbers mean anything
fn numbers(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let x: i128 = match r.below(6) {
        0 => r.below(600) as i128 - 300,
        1 => *r.pick(&[0, 1, -1, 127, 128, 255, 256, -128, -129]),
        2 => *r.pick(&[u64::MAX as i128, u64::MAX as i128 + 1, i64::MAX as i128, i64::MIN as i128, i64::MIN as i128 - 1, 1 << 32, -(1 << 32)]),
        3 => (r.u64() >> r.below(60)) as i128,
        4 => -((r.u64() >> r.below(60)) as i128),
        _ => r.below(40) as i128,
    };
    c.log(|| format!("number {}", x));
    let e: Option<u64> = (x > 0 && x <= usize::MAX as i128).then_some(x as u64);
    let check_bell = |got: Option<Bell>, e: Option<u64>, what: &str| -> R {
        eq!(got.map(|b| b.index() as u64), e.map(|x| x - 1), "bell from {} as {}", x, what);
        Ok(())
    };
    let check_stage = |got: Option<Stage>, e: Option<u64>, what: &str| -> R {
        eq!(got.map(|b| b.num_bells() as u64), e, "stage from {} as {}", x, what);
        Ok(())
    };
    check_bell(serde_json::from_str(&x.to_string()).ok(), e, "JSON")?;
    check_stage(serde_json::from_str(&x.to_string()).ok(), e, "JSON")?;
    macro_rules! typed {
        ($t:ty, $d:ident) => {
            if let Ok(v) = <$t>::try_from(x) {
                let d: value::$d<value::Error> = v.into_deserializer();
                check_bell(Bell::deserialize(d).ok(), e, stringify!($t))?;
                let d: value::$d<value::Error> = v.into_deserializer();
                check_stage(Stage::deserialize(d).ok(), e, stringify!($t))?;
                c.count("typed numbers");
            }
        };
    }
    typed!(u8, U8Deserializer);
    typed!(i8, I8Deserializer);
    typed!(u16, U16Deserializer);
    typed!(i16, I16Deserializer);
    typed!(u32, U32Deserializer);
    typed!(i32, I32Deserializer);
    typed!(u64, U64Deserializer);
    typed!(i64, I64Deserializer);
    // Formats may hand over larger numbers than any which is a bell or stage: these may be refused, but not misread
    macro_rules! wide {
        ($x:expr, $d:ident, $t:expr) => {
            let d: value::$d<value::Error> = $x.into_deserializer();
            if let Ok(b) = Bell::deserialize(d) {
                check_bell(Some(b), $t, stringify!($d))?;
            }
            let d: value::$d<value::Error> = $x.into_deserializer();
            if let Ok(s) = Stage::deserialize(d) {
                check_stage(Some(s), $t, stringify!($d))?;
            }
            c.count("wide numbers");
        };
    }
    wide!(x, I128Deserializer, e);
    if x >= 0 {
        wide!(x as u128, U128Deserializer, e);
    }
    let shift = r.range(64, 126);
    let big = (1u128 << shift) + if r.bool() { x.unsigned_abs() } else { r.u64() as u128 };
    wide!(big, U128Deserializer, None);
    wide!(big as i128, I128Deserializer, None);
    wide!((big as i128).wrapping_neg(), I128Deserializer, None);
    wide!((x as i128 as u128).wrapping_add(1 << 127), U128Deserializer, None);
    macro_rules! not_numbers {
        ($x:expr, $d:ident) => {
            let d: value::$d<value::Error> = $x.into_deserializer();
            let got = Bell::deserialize(d).ok();
            ensure!(got.is_none(), "{} as a bell, from {:?}: {:?}", stringify!($d), $x, got);
            let d: value::$d<value::Error> = $x.into_deserializer();
            let got = Stage::deserialize(d).ok();
            ensure!(got.is_none(), "{} as a stage, from {:?}: {:?}", stringify!($d), $x, got);
            c.count("values of other types");
        };
    }
    not_numbers!(x as f64, F64Deserializer);
    not_numbers!(x as f32, F32Deserializer);
    not_numbers!((x % 2 == 0), BoolDeserializer);
    not_numbers!((), UnitDeserializer);
    c.count(if e.is_some() { "valid numbers" } else { "invalid numbers" });
    c.sig(x as u64);
    Ok(())
}

fn strings(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let s = match r.below(5) {
        0 => gens::text(r, 3),
        1 => model::bell_name(r.below(40)),
        2 => model::bell_name(r.below(33)) + &model::bell_name(r.below(33)),
        3 => {
            let mut s = model::STAGE_NAMES[r.below(22)].to_owned();
            match r.below(5) {
                0 => s.push(' '),
                1 => s = s.chars().skip(1).collect(),
                2 => s.push_str("s"),
                3 => s = s.replace('-', " "),
                _ => {}
            }
            s
        }
        _ => gens::text(r, 20),
    };
    c.log(|| format!("{:?}", s));
    let json = serde_json::to_string(&s).unwrap();
    let mut chars = s.chars();
    let e_bell = match (chars.next(), chars.next()) {
        (Some(ch), None) => model::bell_of_char(ch),
        _ => None,
    };
    if let Ok(b) = serde_json::from_str::<Bell>(&json) {
        eq!(Some(b.index()), e_bell, "bell from {}", json);
    }
    let d: value::StringDeserializer<value::Error> = s.clone().into_deserializer();
    eq!(Bell::deserialize(d).ok().map(|b| b.index()), e_bell, "bell from the String {}", json);
    // (non-ASCII letters which become ASCII letters in lower case could be either)
    if s.is_ascii() {
        let e_stage = model::STAGE_NAMES.iter().position(|n| n.eq_ignore_ascii_case(&s)).map(|i| i + 1);
        if let Ok(b) = serde_json::from_str::<Stage>(&json) {
            eq!(Some(b.num_bells()), e_stage, "stage from {}", json);
        }
        let d: value::StrDeserializer<value::Error> = s.as_str().into_deserializer();
        eq!(Stage::deserialize(d).ok().map(|b| b.num_bells()), e_stage, "stage from the string {}", json);
        if e_stage.is_some() {
            c.count("stage names");
        }
    } else {
        let _ = serde_json::from_str::<Stage>(&json);
    }
    c.count(if e_bell.is_some() { "bell names" } else { "not bell names" });
    c.sig(hash_str(&s));
    Ok(())
}

/// Anything else is an error, not a panic and not a bell
fn other_json(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let s = match r.below(8) {
        0 => "null".to_owned(),
        1 => "true".to_owned(),
        2 => format!("{}.5", r.below(10)),
        3 => format!("[{}]", r.below(10)),
        4 => format!("{{\"index\":{}}}", r.below(10)),
        5 => format!("{}e{}", r.below(10), r.below(400)),
        6 => gens::text(r, 6),
        _ => "-0".to_owned(),
    };
    c.log(|| s.clone());
    let is_number_or_string = s.trim().parse::<u64>().is_ok() || s.trim().starts_with('"');
    let b = serde_json::from_str::<Bell>(&s);
    let t = serde_json::from_str::<Stage>(&s);
    if !is_number_or_string {
        ensure!(b.is_err(), "the JSON {:?} was read as the bell {:?}", s, b);
        ensure!(t.is_err(), "the JSON {:?} was read as the stage {:?}", s, t);
    }
    c.count("other JSON");
    c.sig(hash_str(&s));
    Ok(())
}
