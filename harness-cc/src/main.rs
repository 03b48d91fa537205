//! `bfmon-cc PROPERTY [options]`: like `bfmon`, for the parts of bellframe which need the `cc_lib` and
//! `cc_lib_gen` features.

#![allow(dead_code)]

#[path = "../../harness/src/cli.rs"]
mod cli;
#[path = "../../harness/src/ctx.rs"]
mod ctx;
#[path = "../../harness/src/gens.rs"]
mod gens;
#[path = "../../harness/src/model.rs"]
mod model;
mod p_cc;
#[path = "../../harness/src/p_lib.rs"]
mod p_lib;
#[path = "../../harness/src/p_method.rs"]
mod p_method;
#[path = "../../harness/src/p_pn.rs"]
mod p_pn;
#[path = "../../harness/src/sys.rs"]
mod sys;
#[path = "../../harness/src/rng.rs"]
mod rng;
mod web;

fn main() {
    cli::main(|prop, _| match prop {
        "C24" => {
            web::start();
            Some(p_cc::C24.to_vec())
        }
        "C25" => Some(p_cc::C25.to_vec()),
        _ => None,
    });
}
