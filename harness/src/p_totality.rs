//! C20: parsers and deserialisers never panic

use std::collections::{BTreeMap, HashMap};

use bellframe::{
    music::Regex,
    Bell, Block, Mask, Method, MethodLib, PlaceNot, PnBlock, Row, RowBuf, SameStageVec, Stage,
};

use crate::{
    ctx::{guard, random, Case, Probe, R},
    gens::{self, st},
    p_music::{elems, elems_text},
    p_pn::{block_text, damage},
    rng::{hash_str, Rng},
};

pub const C20: &[Probe] = &[
    random("strings", 40_000, strings),
    random("long-strings", 400, |c| {
        let r = &mut c.rng.clone();
        let s = long_text(r, 6_000);
        feed(c, &s)
    }),
    random("huge-strings", 12, huge),
    random("json", 30_000, json),
];

fn some_text(r: &mut Rng) -> String {
    let mut s = match r.below(8) {
        0 => gens::text(r, 60),
        1 => block_text(r).0,
        2 => {
            let e = elems(r, 12);
            elems_text(&e)
        }
        3 => {
            let n = gens::stage(r, 40);
            (0..r.range(1, 5)).map(|_| gens::show(&gens::perm(r, n))).collect::<Vec<_>>().join("\n")
        }
        4 => crate::model::stage_display(r.range(1, 30)),
        5 => r.pick(&["", " ", "\n", "\r\n", ",", "+", "x", "-", "*", ".", "<1>", "0", "18446744073709551615", "1.e5", "NaN", ",,", "x,x,x", "+,+", "\u{0}"]).to_string(),
        _ => gens::text(r, 12),
    };
    if r.chance(1, 2) {
        s = damage(r, &s);
    }
    s
}

fn long_text(r: &mut Rng, max: usize) -> String {
    let unit = some_text(r);
    let n = r.range(20, 600).max(max / 10);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(&unit);
        if s.len() > max {
            break;
        }
    }
    s
}

/// Hundreds of kilobytes: whatever recurses (or is quadratic) can't cope with these.  Nested brackets, repetitions of
/// one symbol, runs of whitespace, ...
fn huge(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let len = r.range(100_000, 400_000);
    let s = match r.below(5) {
        0 => long_text(r, len),
        1 => {
            let ch = *r.pick(&['*', '.', '?', '-', 'x', ' ', '\n', ',', '+', '1', '2', '[', '{', '"', 'é', '&', '\\']);
            std::iter::repeat(ch).take(len).collect()
        }
        2 => {
            // Symbols at random
            let alphabet = r.pick(&["*.?1234", "x-.1234", "x,+", "1 2", "[]{}", "12\n", "**?"]).chars().collect::<Vec<_>>();
            (0..len).map(|_| *r.pick(&alphabet)).collect()
        }
        3 => {
            // A symbol in the middle of nothing
            let mut s = " ".repeat(len);
            let at = r.below(len);
            s.insert_str(at, *r.pick(&[",", "x", "1", "*", "\n"]));
            s
        }
        _ => {
            let unit = *r.pick(&["-1", "x12", "1.", "*.", "*?", "12\n", ",1", "{\"groups\":", "[[", "Maximus "]);
            unit.repeat(len / unit.len())
        }
    };
    feed(c, &s)
}

fn strings(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let s = some_text(r);
    feed(c, &s)
}

/// Use everything which parses strings.  What they return is checked by the other properties
fn feed(c: &mut Case, s: &str) -> R {
    let r = &mut c.rng.clone();
    let n = match r.below(6) {
        0 => *r.pick(&[1, 2, 33, 34, 300]),
        _ => gens::stage(r, 40),
    };
    c.log(|| format!("{:?} on {} bells", s.chars().take(100).collect::<String>(), n));
    let stage = st(n);
    let mut accepted = 0;
    macro_rules! total {
        ($what:expr, $e:expr) => {
            if guard(|| $e).map_err(|e| format!("{} on {:?} ({} bells) panicked: {}", $what, s.chars().take(20_000).collect::<String>(), n, e))? {
                accepted += 1;
                c.count(concat!("accepted: ", $what));
            } else {
                c.count(concat!("rejected: ", $what));
            }
        };
    }
    fn shown<T, E: std::fmt::Display + std::fmt::Debug>(r: Result<T, E>) -> bool {
        match r {
            Ok(_) => true,
            Err(e) => {
                // Errors can be shown, too
                std::hint::black_box((e.to_string(), format!("{:?}", e)));
                false
            }
        }
    }
    total!("Bell::from_name", s.chars().take(50).any(|ch| Bell::from_name(ch).is_some()));
    total!("Stage::from_lower_case_name", Stage::from_lower_case_name(s).is_some());
    total!("RowBuf::parse", shown(RowBuf::parse(s)));
    total!("RowBuf::parse_with_stage", shown(RowBuf::parse_with_stage(s, stage)));
    total!("str::parse::<RowBuf>", shown(s.parse::<RowBuf>()));
    total!("SameStageVec::parse", shown(SameStageVec::parse(s)));
    total!("Block::parse", shown(Block::parse(s)));
    total!("PlaceNot::parse", shown(PlaceNot::parse(s, stage)));
    total!("PnBlock::parse", shown(PnBlock::parse(s, stage)));
    total!("Mask::parse", {
        let m = Mask::parse(s);
        std::hint::black_box((m.to_string(), format!("{:?}", m), m.as_row()));
        true
    });
    total!("Regex::parse", {
        let x = Regex::parse(s);
        std::hint::black_box((x.to_string(), format!("{:?}", x)));
        let row = RowBuf::rounds(stage);
        if s.len() < 200 {
            std::hint::black_box(x.matches(&row));
        }
        true
    });
    total!("Method::from_place_not_string", shown(Method::from_place_not_string(s.to_owned(), stage, s)));
    total!("MethodLib::from_json", shown(MethodLib::from_json(s)));
    total!("serde Bell", shown(serde_json::from_str::<Bell>(s)));
    total!("serde Stage", shown(serde_json::from_str::<Stage>(s)));
    if accepted > 0 {
        c.sig(hash_str(s) ^ n as u64);
    }
    let _: Option<&Row> = None;
    Ok(())
}

fn json_value(r: &mut Rng, depth: usize) -> String {
    match r.below(if depth == 0 { 9 } else { 14 }) {
        0 => "null".to_owned(),
        1 => r.pick(&["true", "false"]).to_string(),
        2 => r.below(300).to_string(),
        3 => r.pick(&["0", "-1", "-0", "1.0", "1e3", "18446744073709551615", "18446744073709551616", "9223372036854775808", "-9223372036854775808", "1e400", "0.5", "255", "256", "1e19"]).to_string(),
        4 => serde_json::to_string(&gens::text(r, 6)).unwrap(),
        5 => serde_json::to_string(&crate::model::stage_display(r.range(1, 25))).unwrap(),
        6 => serde_json::to_string(&crate::model::bell_name(r.below(40))).unwrap(),
        7 | 8 => r.range(0, 12).to_string(),
        9 | 10 => format!("[{}]", (0..r.below(4)).map(|_| json_value(r, depth - 1)).collect::<Vec<_>>().join(",")),
        11 | 12 => format!(
            "{{{}}}",
            (0..r.below(5))
                .map(|_| format!("{:?}:{}", *r.pick(&["groups", "s", "j", "l", "d", "c", "m", "t", "n", "p", "x"]), json_value(r, depth - 1)))
                .collect::<Vec<_>>()
                .join(",")
        ),
        _ => {
            // Something like a library
            let m = |r: &mut Rng| format!("{{\"n\":{},\"p\":{}}}", json_value(r, 0), json_value(r, 0));
            format!("{{\"groups\":[{{\"s\":{},\"c\":{},\"m\":[{}]}}]}}", json_value(r, 0), json_value(r, 0), m(r))
        }
    }
}

fn json(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let s = if r.chance(1, 3) {
        // A plausible library
        let ints = ["0", "1", "8", "9", "22", "23", "64", "4294967296", "18446744073709551615"];
        let methods: Vec<String> = (0..r.below(3))
            .map(|_| {
                let t = if r.bool() { format!("\"t\":{},", serde_json::to_string(&gens::text(r, 8)).unwrap()) } else { String::new() };
                format!("{{{}\"n\":{},\"p\":{}}}", t, serde_json::to_string(&gens::text(r, 8)).unwrap(), serde_json::to_string(&some_text(r)).unwrap())
            })
            .collect();
        format!("{{\"groups\":[{{\"s\":{},\"c\":{},\"j\":{},\"m\":[{}]}}]}}", r.pick(&ints), r.below(11), r.bool(), methods.join(","))
    } else {
        json_value(r, 3)
    };
    let s = if r.chance(1, 6) { damage(r, &s) } else { s };
    c.log(|| s.clone());
    let mut any = false;
    macro_rules! total {
        ($what:expr, $e:expr) => {
            if guard(|| $e).map_err(|e| format!("{} from {:?} panicked: {}", $what, s, e))? {
                any = true;
                c.count(concat!("accepted: ", $what));
            } else {
                c.count(concat!("rejected: ", $what));
            }
        };
    }
    let big = |s: &str| s.len() > 10;
    total!("JSON bell", serde_json::from_str::<Bell>(&s).map(|b| b.index() < 40 && big(&b.to_string())).is_ok());
    total!("JSON stage", serde_json::from_str::<Stage>(&s).map(|b| big(&b.to_string())).is_ok());
    total!("JSON bells", serde_json::from_str::<Vec<Bell>>(&s).is_ok());
    total!("JSON stages", serde_json::from_str::<Vec<Stage>>(&s).is_ok());
    total!("JSON map of stages", serde_json::from_str::<BTreeMap<String, Stage>>(&s).is_ok());
    total!("JSON map of bells", serde_json::from_str::<HashMap<String, Option<Bell>>>(&s).is_ok());
    total!("JSON library", match MethodLib::from_json(&s) {
        Err(e) => big(&e.to_string()) && false,
        Ok(lib) => {
            // Libraries can be used, whatever they contain
            let query = gens::text(r, 8);
            std::hint::black_box(lib.get_by_title(&query).is_ok());
            std::hint::black_box(lib.get_by_title_with_suggestions(&query, r.below(5)).is_ok());
            lib.to_json().is_ok()
        }
    });
    if any {
        c.sig(hash_str(&s));
    }
    Ok(())
}
