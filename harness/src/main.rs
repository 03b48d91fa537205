//! `bfmon PROPERTY [options]`: run the monitors of one property against bellframe.
//!
//! Exit codes: 0 nothing violated, 1 violations (described on stdout and in the part file),
//! 3 a case hung (the runner decides what that means), anything else is a failure of the harness.

#![allow(unused_must_use, dropping_copy_types, dead_code)]

mod cli;
mod ctx;
mod gens;
mod model;
mod p_mem;
mod p_method;
mod p_pn;
mod p_pure;
mod p_rows;
mod p_same;
mod p_music;
mod p_text;
mod p_totality;
mod p_lib;
mod p_valid;
mod p_vec;
mod rng;
mod sys;

use ctx::Probe;

/// The workload of the memory safety property: its own, then everything else which isn't too slow
/// for Miri
fn mem_probes(all: bool) -> Vec<Probe> {
    let mut v = p_mem::C21.to_vec();
    let others = ["C01", "C10", "C11", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C12", "C13", "C15", "C19", "C20", "C22", "C23"];
    for p in others {
        v.extend(probes(p).unwrap().iter().filter(|p| all || !SLOW.contains(&p.name)));
    }
    v
}

/// The workloads of the other properties, for other machines
fn rest_probes() -> Vec<Probe> {
    let props = [
        "C19", "C14", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C16", "C17", "C18", "C20", "C22",
        "C23", "C01",
    ];
    props.iter().flat_map(|p| probes(p).unwrap()).filter(|p| !cfg!(miri) || !SLOW.contains(&p.name)).copied().collect()
}

const SLOW: &[&str] = &[
    "history-long",
    "history-huge-stages",
    "big-powers",
    "fast-hash-is-perfect",
    "fast-hash-collisions",
    "closures-of-all-rows-up-to-6",
    "bell-names",
    "every-char-as-a-bell",
    "all-mask-pairs-up-to-5",
    "mask-histories",
    "long-strings",
    "huge-strings",
];

fn probes(prop: &str) -> Option<&'static [Probe]> {
    Some(match prop {
        "C01" => p_valid::C01,
        "C02" => p_rows::C02,
        "C03" => p_rows::C03,
        "C04" => p_rows::C04,
        "C05" => p_rows::C05,
        "C06" => p_rows::C06,
        "C07" => p_text::C07,
        "C08" => p_pn::C08,
        "C09" => p_pn::C09,
        "C10" => p_vec::C10,
        "C11" => p_vec::C11,
        "C12" => p_music::C12,
        "C13" => p_music::C13,
        "C14" => p_music::C14,
        "C15" => p_method::C15,
        "C16" => p_method::C16,
        "C17" => p_lib::C17,
        "C18" => p_lib::C18,
        "C19" => p_text::C19,
        "C20" => p_totality::C20,
        "C21" => p_mem::C21,
        "C22" => p_rows::C22,
        "C23" => p_rows::C23,
        "C26" => p_pure::C26,
        "C27" => p_same::C27,
        _ => return None,
    })
}

fn main() {
    cli::main(|prop, mem| {
        if prop == "C27" && sys::args().iter().any(|a| a == "--rest") {
            return Some(rest_probes());
        }
        let own = sys::args().iter().any(|a| a == "--own");
        if mem && prop == "C21" && !own {
            Some(mem_probes(!cfg!(miri)))
        } else {
            probes(prop).map(|p| p.to_vec())
        }
    });
}
