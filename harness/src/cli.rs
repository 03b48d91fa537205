//! The command line of a harness: parses options, runs probes, writes the part file

use crate::{
    ctx::{self, Opts, Probe},
    sys,
};

/// `table` maps properties (and whether `--mem` was given) to their probes
pub fn main(table: impl Fn(&str, bool) -> Option<Vec<Probe>>) {
    let args = sys::args();
    let prop = args.get(1).cloned().unwrap_or_default();
    let mem = args.iter().any(|a| a == "--mem");
    let Some(probes) = table(&prop, mem) else {
        eprintln!("usage: bfmon PROPERTY [--seed N] [--shard N] [--thorough] [--budget SECS] [--out FILE] [--only PROBE IDX] [--scale F] [--hang SECS]");
        sys::exit(2);
    };
    let mut o = Opts {
        prop,
        seed: 1,
        shard: 0,
        thorough: false,
        budget: 60.0,
        out: None,
        only: None,
        scale: 1.0,
        hang_s: 60,
        mem: false,
        sample: false,
    };
    let mut i = 2;
    let mut list = false;
    let arg = |i: usize| -> &str { args.get(i).map_or_else(|| panic!("missing value"), |s| s.as_str()) };
    while i < args.len() {
        match arg(i) {
            "--seed" => o.seed = arg(i + 1).parse().unwrap(),
            "--shard" => o.shard = arg(i + 1).parse().unwrap(),
            "--budget" => o.budget = arg(i + 1).parse().unwrap(),
            "--scale" => o.scale = arg(i + 1).parse().unwrap(),
            "--hang" => o.hang_s = arg(i + 1).parse().unwrap(),
            "--out" => o.out = Some(arg(i + 1).to_owned()),
            "--only" => {
                o.only = Some((arg(i + 1).to_owned(), arg(i + 2).parse().unwrap()));
                i += 1;
            }
            "--mem" => {
                o.mem = true;
                o.sample = true;
                i -= 1;
            }
            // Only read by `table`
            "--own" => i -= 1,
            "--rest" => {
                o.sample = true;
                i -= 1;
            }
            "--thorough" => {
                o.thorough = true;
                i -= 1;
            }
            "--list" => {
                list = true;
                i -= 1;
            }
            a => panic!("unknown argument {}", a),
        }
        i += 2;
    }
    if list {
        for p in &probes {
            sys::print(p.name);
        }
        return;
    }
    ctx::install_panic_hook();
    let state = o.out.as_ref().map(|p| sys::State::new(&format!("{}.state", p)));
    let outcome = ctx::run(&probes, &o, state.as_ref());
    for v in &outcome.violations {
        sys::print(&format!("VIOLATED {} {} {} {}", o.prop, v.probe, v.idx, v.msg.replace('\n', "\\n")));
    }
    if let Some(path) = &o.out {
        let json = serde_json::json!({
            "property": o.prop,
            "seed": o.seed,
            "shard": o.shard,
            "evaluations": outcome.evaluations,
            "per_probe": outcome.per_probe.iter().map(|(n, c, all)| serde_json::json!({"probe": n, "cases": c, "exhausted": all})).collect::<Vec<_>>(),
            "counts": outcome.counts,
            "sig_total": outcome.sig_total,
            "sigs": outcome.sigs.len(),
            "samples": outcome.samples,
            "violations": outcome.violations.iter().map(|v| serde_json::json!({
                "probe": v.probe, "idx": v.idx, "msg": v.msg, "log": v.log,
            })).collect::<Vec<_>>(),
        });
        let bytes: Vec<u8> = outcome.sigs.iter().flat_map(|s| s.to_le_bytes()).collect();
        sys::write(&format!("{}.sigs", path), &bytes);
        if !outcome.answers.is_empty() {
            sys::write(&format!("{}.answers", path), outcome.answers.as_bytes());
        }
        sys::write(path, json.to_string().as_bytes());
    } else {
        sys::print(&format!(
            "{}: {} cases, {} violations, {} distinct, counts {:?}, probes {:?}",
            o.prop,
            outcome.evaluations,
            outcome.violations.len(),
            outcome.sigs.len(),
            outcome.counts,
            outcome.per_probe
        ));
    }
    sys::exit(if outcome.violations.is_empty() { 0 } else { 1 });
}
