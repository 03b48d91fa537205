//! C17, C18: method libraries

use std::collections::{BTreeMap, BTreeSet};

use bellframe::{method_lib::QueryError, place_not::PnBlockParseError, Method, MethodLib};
use serde_json::{json, Value};

use crate::{
    ctx::{guard, random, Case, Probe, R},
    ensure, eq,
    gens::{self, ints, st},
    model::{self, P},
    p_method::lead_rows,
    p_pn::{block_text, check_block_result, damage},
    rng::{hash_str, mix, Rng},
};

pub const C17: &[Probe] = &[
    random("libraries", 12_000, libraries),
    random("invalid-libraries", 10_000, invalid),
];

pub const C18: &[Probe] = &[random("suggestions", 15_000, suggestions)];

pub const CLASS_NAMES: [&str; 9] = ["Principle", "Place", "Bob", "Treble Bob", "Delight", "Surprise", "Treble Place", "Alliance", "Hybrid"];

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Entry {
    pub stage: usize,
    pub jump: bool,
    pub little: bool,
    pub diff: bool,
    pub class: usize,
    pub name: String,
    pub title: String,
    pub pn: String,
}

impl Entry {
    fn model_class(&self) -> model::Class {
        model::Class { little: self.little, differential: self.diff, name: CLASS_NAMES[self.class] }
    }
    pub fn std_title(&self) -> String {
        model::title(&self.name, &self.model_class(), self.jump, self.stage)
    }
    /// Titles can only be found if they end with the name of their stage
    pub fn findable(&self) -> bool {
        let low = self.title.to_lowercase();
        self.stage <= 22 && low.rsplit(' ').next() == Some(model::STAGE_NAMES[self.stage - 1].to_lowercase().as_str())
    }
}

const WORDS: &[&str] = &[
    "Cambridge", "Yorkshire", "Plain", "Kent", "Bristol", "Little", "Surprise", "St Clement's", "Ħal Għaxaq", "ÉCOLE", "ΟΔΟΣ", "Straße",
    "a", "I", "İstanbul", "2-Spot", "Double", "\"Quoted\"", "back\\slash", "Æthelred", "Ǆ", "x", "Cambridge Surprise", "New", "🦀",
];

pub fn word_name(r: &mut Rng) -> String {
    match r.below(8) {
        0 => String::new(),
        1 if r.chance(1, 20) => gens::text(r, 400),
        1 => gens::text(r, 8),
        _ => (0..r.range(1, 3)).map(|_| *r.pick(WORDS)).collect::<Vec<_>>().join(" "),
    }
}

/// A library's methods, with distinct titles on each stage
pub fn entries(r: &mut Rng, max: usize) -> Vec<Entry> {
    let mut seen = BTreeSet::new();
    let mut out = vec![];
    for _ in 0..r.below(max + 1) {
        let (mut pn, mut stage) = block_text(r);
        if r.chance(1, 10) {
            pn = damage(r, &pn);
        }
        if r.chance(1, 20) {
            stage = *r.pick(&[22, 23, 33, 40, 64]);
            pn = if stage % 2 == 0 { "x1" } else { "1.3" }.to_owned();
        }
        let mut e = Entry {
            stage,
            jump: r.chance(1, 5),
            little: r.chance(1, 3),
            diff: r.chance(1, 4),
            class: r.below(9),
            name: word_name(r),
            title: String::new(),
            pn,
        };
        e.title = e.std_title();
        if r.chance(1, 4) {
            // A title which isn't the standard one
            e.title = match r.below(5) {
                0 => format!("{} {}", e.name, model::stage_display(stage)),
                1 => format!("The {}", e.title),
                2 => e.title.to_uppercase(),
                3 => format!("{} {}", word_name(r), model::stage_display(r.range(1, 22))),
                _ => gens::text(r, 10),
            };
        }
        if seen.insert((e.stage, e.title.to_lowercase())) {
            out.push(e);
        }
    }
    out
}

/// The JSON of a library
pub fn to_json(r: &mut Rng, entries: &[Entry]) -> String {
    let mut groups: BTreeMap<(usize, bool, bool, bool, usize, u64), Vec<Value>> = BTreeMap::new();
    for e in entries {
        let mut m = json!({"n": e.name, "p": e.pn});
        if e.title != e.std_title() || r.chance(1, 6) {
            m["t"] = json!(e.title);
        } else if r.chance(1, 6) {
            m["t"] = Value::Null;
        }
        groups.entry((e.stage, e.jump, e.little, e.diff, e.class, r.below(3) as u64 / 2)).or_default().push(m);
    }
    if r.chance(1, 4) {
        groups.entry((r.range(1, 30), false, false, false, r.below(9), 9)).or_default();
    }
    let mut groups: Vec<Value> = groups
        .into_iter()
        .map(|((s, j, l, d, c, _), m)| {
            let mut g = json!({"s": s, "c": c, "m": m});
            for (k, v) in [("j", j), ("l", l), ("d", d)] {
                if v || r.chance(1, 5) {
                    g[k] = json!(v);
                }
            }
            g
        })
        .collect();
    r.shuffle(&mut groups);
    let v = json!({ "groups": groups });
    if r.chance(1, 4) {
        serde_json::to_string_pretty(&v).unwrap()
    } else {
        v.to_string()
    }
}

/// Read a library's JSON without bellframe
pub fn from_json(s: &str) -> Result<Vec<Entry>, String> {
    let v: Value = serde_json::from_str(s).map_err(|e| format!("to_json gave invalid JSON: {}", e))?;
    let mut out = vec![];
    let groups = v["groups"].as_array().ok_or("no groups")?;
    for g in groups {
        let flag = |k: &str| g.get(k).map_or(Some(false), |v| v.as_bool());
        for m in g["m"].as_array().ok_or("no methods in a group")? {
            let mut e = Entry {
                stage: g["s"].as_u64().ok_or("no stage in a group")? as usize,
                jump: flag("j").ok_or("j isn't a bool")?,
                little: flag("l").ok_or("l isn't a bool")?,
                diff: flag("d").ok_or("d isn't a bool")?,
                class: g["c"].as_u64().ok_or("no class in a group")? as usize,
                name: m["n"].as_str().ok_or("method without a name")?.to_owned(),
                title: String::new(),
                pn: m["p"].as_str().ok_or("method without place notation")?.to_owned(),
            };
            ensure!(e.class < 9 && e.stage > 0, "group with class {} on {} bells", e.class, e.stage);
            e.title = m.get("t").and_then(|t| t.as_str()).map_or_else(|| e.std_title(), |s| s.to_owned());
            out.push(e);
        }
    }
    out.sort();
    Ok(out)
}

pub fn vary_case(r: &mut Rng, s: &str) -> String {
    match r.below(5) {
        0 => s.to_owned(),
        1 => s.to_lowercase(),
        // (not every letter survives this, e.g. there's no capital sharp s)
        4 if s.to_uppercase().to_lowercase() == s.to_lowercase() => s.to_uppercase(),
        2 => s.to_ascii_uppercase(),
        _ => s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}

fn check_found(c: &mut Case, e: &Entry, m: &Method) -> R {
    eq!(m.title(), e.title, "title of the method found");
    eq!(m.name(), e.name, "name of the method {:?}", e.title);
    eq!(m.stage().num_bells(), e.stage, "stage of the method {:?}", e.title);
    let changes = model::parse_block(&e.pn, e.stage).map_err(|f| format!("{:?} was found, but its notation has {:?}", e, f))?;
    let got: Vec<P> = m.first_lead().all_rows().map(ints).collect();
    ensure!(got == lead_rows(&changes, e.stage), "lead of {:?}: {:?}", e, got);
    ensure!(m.first_lead().annots().all(|a| a.is_none()), "{:?} has labels", e.title);
    c.count("methods found");
    Ok(())
}

/// Check the error of a method whose place notation is invalid
fn check_pn_err(e: &Entry, pn: &str, error: PnBlockParseError) -> R {
    eq!(pn, e.pn.as_str(), "place notation of the error of {:?}", e.title);
    check_block_result(&Err(error), pn, e.stage).map(|_| ())
}

pub fn lookup(c: &mut Case, r: &mut Rng, lib: &MethodLib, entries: &[Entry], query: &str) -> R {
    let low = query.to_lowercase();
    // There's at most one findable title
    let target = entries.iter().find(|e| e.findable() && e.title.to_lowercase() == low);
    let others: Vec<&Entry> = entries.iter().filter(|e| e.title.to_lowercase() == low).collect();
    let sugg = r.bool();
    let res: Result<Method, QueryError<()>> = if sugg {
        let k = r.below(4);
        guard(|| lib.get_by_title_with_suggestions(query, k)).map_err(|e| format!("lookup of {:?} panicked: {}", query, e))?.map_err(|e| e.map_not_found(|_| ()))
    } else {
        guard(|| lib.get_by_title(query)).map_err(|e| format!("lookup of {:?} panicked: {}", query, e))?
    };
    if let Err(e) = &res {
        // What `unwrap_parse_err` is for
        let (e, is_pn_err) = (e.clone(), matches!(e, QueryError::PnParseErr { .. }));
        match guard(|| e.unwrap_parse_err()) {
            Ok(Err(())) => ensure!(!is_pn_err, "unwrap_parse_err took an invalid notation for a title which wasn't found"),
            Ok(Ok(m)) => return Err(format!("unwrap_parse_err found {:?}", m.title())),
            Err(e) => ensure!(is_pn_err, "unwrap_parse_err panicked although nothing was found: {}", e),
        }
    }
    match (target, res) {
        (Some(e), Ok(m)) => check_found(c, e, &m),
        (Some(e), Err(QueryError::PnParseErr { pn, error })) => {
            c.count("methods with invalid notation");
            check_pn_err(e, pn, error)
        }
        (Some(e), Err(QueryError::NotFound(()))) => Err(format!("the method {:?} wasn't found by {:?}", e, query)),
        (None, Err(QueryError::NotFound(()))) => {
            c.count("titles not found");
            Ok(())
        }
        (None, Ok(m)) => {
            let Some(e) = others.iter().find(|e| e.stage == m.stage().num_bells()) else {
                return Err(format!("looking up {:?} found the method {:?}", query, m.title()));
            };
            check_found(c, e, &m)
        }
        (None, Err(QueryError::PnParseErr { pn, .. })) => {
            ensure!(others.iter().any(|e| e.pn == pn), "looking up {:?} found the notation {:?}", query, pn);
            Ok(())
        }
    }
}

fn libraries(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let max = if r.chance(1, 150) { 1_000 } else { *r.pick(&[1, 3, 10, 40]) };
    let entries = entries(r, max);
    let json = to_json(r, &entries);
    c.log(|| json.clone());
    let lib = MethodLib::from_json(&json).map_err(|e| format!("{} was rejected: {}", json, e))?;
    // Round trip
    let json2 = lib.to_json().map_err(|e| format!("to_json failed: {}", e))?;
    let mut sorted = entries.clone();
    sorted.sort();
    let stored = from_json(&json2)?;
    ensure!(stored == sorted, "the library {:?} was serialised as {:?}", sorted, stored);
    let lib2 = MethodLib::from_json(&json2).map_err(|e| format!("the output of to_json was rejected: {}", e))?;
    let json3 = lib2.to_json().map_err(|e| format!("to_json failed: {}", e))?;
    ensure!(from_json(&json3)? == sorted, "the library changed in a second round trip");
    let lib3 = lib.clone();
    let skip = entries.len() / 60 + 1;
    let from = r.below(skip);
    for e in entries.iter().skip(from).step_by(skip) {
        let q = vary_case(r, &e.title);
        // Changing the case of a title (in ASCII) doesn't change what it means
        for l in [&lib, &lib2, &lib3] {
            lookup(c, r, l, &entries, &q)?;
        }
    }
    for _ in 0..6 {
        let q = match r.below(6) {
            0 => gens::text(r, 10),
            1 => String::new(),
            2 => format!("{} {}", word_name(r), model::stage_display(r.range(1, 24))),
            3 => model::stage_display(r.range(1, 24)).to_lowercase(),
            _ if !entries.is_empty() => {
                let t = &r.pick(&entries).title;
                match r.below(4) {
                    0 => format!("{} ", t),
                    1 => format!(" {}", t),
                    2 => t.replace(' ', "  "),
                    _ => damage(r, t),
                }
            }
            _ => "Bristol Surprise Major".to_owned(),
        };
        lookup(c, r, if r.bool() { &lib } else { &lib2 }, &entries, &q)?;
    }
    c.count_n("library entries", entries.len() as u64);
    if !entries.is_empty() {
        c.sig(hash_str(&json));
    }
    Ok(())
}

/// Inputs which can't be libraries are rejected
fn invalid(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let entries = entries(r, 6);
    let mut v: Value = serde_json::from_str(&to_json(r, &entries)).unwrap();
    let mut groups = v["groups"].as_array().unwrap().clone();
    if groups.is_empty() {
        groups.push(json!({"s": 5, "c": 1, "m": [{"n": "A", "p": "1"}]}));
    }
    let gi = r.below(groups.len());
    let g = &mut groups[gi];
    let what = match r.below(12) {
        0 => {
            g["s"] = json!(0);
            "a stage of zero bells"
        }
        1 => {
            g["c"] = json!(r.range(9, 255));
            "an unknown class"
        }
        2 => {
            g["c"] = json!(256 + r.below(9));
            "a class which isn't a byte"
        }
        3 => {
            let k = *r.pick(&["s", "c", "m"]);
            g.as_object_mut().unwrap().remove(k);
            "a group with a missing field"
        }
        4 => {
            g["s"] = json!(-1);
            "a negative stage"
        }
        5 => {
            g["m"].as_array_mut().unwrap().push(json!({"n": "x"}));
            "a method without place notation"
        }
        6 => {
            g["m"].as_array_mut().unwrap().push(json!({"p": "x1"}));
            "a method without a name"
        }
        7 => {
            g["m"].as_array_mut().unwrap().push(json!({"p": 1, "n": "x"}));
            "a place notation which is a number"
        }
        8 => {
            g["j"] = json!(1);
            "a flag which isn't a bool"
        }
        9 => {
            g["s"] = json!("Major");
            "a stage which is a string"
        }
        10 => {
            g["m"] = json!({});
            "a map of methods"
        }
        _ => {
            v = json!([]);
            "no groups"
        }
    };
    let text = if what == "no groups" {
        r.pick(&["[]", "{}", "", "null", "{\"groups\":{}}", "{\"groups\":null}", "{\"groups\":[null]}", "{\"groups\":[]", "{\"groups\":[]} x"]).to_string()
    } else {
        v["groups"] = Value::Array(groups);
        v.to_string()
    };
    // "{}" etc. aside, every one of these is invalid because it lacks something or because of a type
    if what == "no groups" && text == "[]" {
        return Ok(()); // serde allows structs to be sequences
    }
    c.log(|| format!("{}: {}", what, text));
    let res = guard(|| MethodLib::from_json(&text)).map_err(|e| format!("from_json panicked on {} ({}): {}", what, text, e))?;
    ensure!(res.is_err(), "{} was accepted: {}", what, text);
    // Cut anywhere, a library is invalid
    let good = to_json(r, &entries);
    let mut at = r.below(good.len());
    while !good.is_char_boundary(at) {
        at -= 1;
    }
    let cut = good[..at].to_owned();
    if cut.trim_end().len() < good.trim_end().len() {
        let res = guard(|| MethodLib::from_json(&cut)).map_err(|e| format!("from_json panicked on {:?}: {}", cut, e))?;
        ensure!(res.is_err(), "a truncated library was accepted: {}", cut);
    }
    c.count(what);
    c.sig(hash_str(&text));
    Ok(())
}

fn suggestions(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let max = if r.chance(1, 200) { 700 } else { *r.pick(&[0, 1, 4, 12, 60]) };
    let entries = entries(r, max);
    let lib = MethodLib::from_json(&to_json(r, &entries)).map_err(|e| format!("rejected: {}", e))?;
    let query = match r.below(6) {
        0 if r.chance(1, 10) => gens::text(r, 600),
        0 => gens::text(r, 20),
        1 => String::new(),
        2 => format!("{} {}", word_name(r), model::stage_display(r.range(1, 22))),
        _ if !entries.is_empty() => {
            // A misspelling
            let t = vary_case(r, &r.pick(&entries).title);
            let mut v: Vec<char> = t.chars().collect();
            for _ in 0..r.range(1, 3) {
                let i = r.below(v.len() + 1);
                match r.below(4) {
                    0 if i < v.len() => {
                        v.remove(i);
                    }
                    1 if i + 1 < v.len() => v.swap(i, i + 1),
                    2 if i < v.len() => v[i] = *r.pick(&['a', 'É', 'z', ' ', '🦀']),
                    _ => v.insert(i, *r.pick(&['a', 'É', 'Z', ' ', 'ß'])),
                }
            }
            v.into_iter().collect()
        }
        _ => "Cambridge Major".to_owned(),
    };
    let k = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => entries.len(),
        3 => entries.len() + 1,
        4 => *r.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 16_777_216]),
        _ => r.range(1, 12),
    };
    c.log(|| format!("{:?}: {} suggestions from {} methods", query, k, entries.len()));
    let low = query.to_lowercase();
    let target = entries.iter().any(|e| e.title.to_lowercase() == low);
    let res = guard(|| lib.get_by_title_with_suggestions(&query, k)).map_err(|e| format!("asking for {} suggestions for {:?} panicked: {}", k, query, e))?;
    let got = match res {
        Err(QueryError::NotFound(s)) => s,
        _ if target => {
            c.count("queries which are titles");
            return Ok(());
        }
        _ => return Err(format!("{:?} was found", query)),
    };
    if entries.iter().any(|e| e.findable() && e.title.to_lowercase() == low) {
        return Err(format!("{:?} wasn't found", query));
    }
    // Every suggestion is a method of the library (used once), with the right distance
    let mut pool: Vec<(&str, usize)> = entries.iter().map(|e| (e.title.as_str(), model::levenshtein(&low, &e.title.to_lowercase()))).collect();
    let mut dists: Vec<usize> = pool.iter().map(|p| p.1).collect();
    dists.sort();
    eq!(got.len(), k.min(entries.len()), "number of suggestions ({} wanted, {} methods)", k, entries.len());
    for (i, (t, d)) in got.iter().enumerate() {
        let Some(at) = pool.iter().position(|p| p == &(*t, *d)) else {
            let real = pool.iter().find(|p| p.0 == *t);
            return Err(format!("suggestion {} for {:?} is {:?} with distance {}, but that's {:?}", i, query, t, d, real));
        };
        pool.swap_remove(at);
        eq!(*d, dists[i], "distance of suggestion {} ({:?}) for {:?} (suggestions {:?})", i, t, query, got);
    }
    c.count_n("suggestions", got.len() as u64);
    if got.len() < entries.len() && !got.is_empty() {
        c.count("shortlists");
    }
    if entries.len() > 1 {
        c.sig(mix(hash_str(&query)) ^ k as u64);
    }
    let _ = st(1);
    Ok(())
}
