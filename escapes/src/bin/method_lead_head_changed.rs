// Generated by make.py
#![allow(unused, deprecated)]
use escapes::*;

fn main() {
    let mut o = method();
    let mut x = o.lead_head();
    o = method(); o.set_label(0, Some("another label".to_owned()));
    churn();
    see(x);
}
